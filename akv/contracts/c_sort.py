"""Sorting, ranges, uniqueness."""
from ..registry import contract
from ..dsl import *
from ..cands import fa, pt
from .c_redprep import sgen


def ne(k, name, a, b):
    kind, n, s = CT[k.ct(name)]
    return fcmp('une', n, a, b) if kind == 'float' else a != b


def changes(k, p, n):
    return k.count('chg', lambda i: ite(i >= 1, lambda: p[i - 1] != p[i], lambda: False))


@contract('sorting_ranges_length', prop='P15')
def _(k):
    n = k.size('parentslength')
    p = k.arr('parents', n, gen=sgen(k, 9) if k.mode == 'gen' else None)
    C = changes(k, p, n)
    k.out_arr('tolength', 1)
    k.cell('tolength', C(n) + 2)
    k.expr(lambda t: C(t) + 2, lambda t: C(t + 1) + 2)
    k.lemma('C(1)=0', lambda t: Implies(t >= 1, C(1) == 0), pat=lambda t: C(t))


@contract('sorting_ranges', prop='P15')
def _(k):
    n = k.size('parentslength')
    p = k.arr('parents', n, gen=sgen(k, 9) if k.mode == 'gen' else None)
    C = changes(k, p, n)
    k.lemma('C(1)=0', lambda t: Implies(t >= 1, C(1) == 0), pat=lambda t: C(t))
    L = k.int('tolength', lo=2, hi=LMAX, gen=lambda: C(n) + 2)
    k.req(L == C(n) + 2)
    k.out_arr('toindex', L)
    k.out('toindex', n, lo=1, at=lambda i: C(i) + 1, when=lambda i: p[i - 1] != p[i], val=lambda i: i)
    k.out('toindex', None, at=lambda: 0, val=lambda: 0, running=[lambda *t: 0], tag='first')
    k.out('toindex', None, at=lambda: L - 1, val=lambda: n, tag='last')
    k.expr(lambda t: C(t) + 1, lambda t: C(t + 1) + 1, lambda t: t + 1)


@contract('unique', prop='P15')
def _(k):
    n = k.size('length')
    k.req(n >= 1)
    kind, bits, sg = CT[k.ct('toptr')]
    x = k.out_arr('toptr', n, inout=True, gen=(lambda i: float(k.rng.randint(0, 2))) if kind == 'float' else (lambda i: k.rng.randint(0, 1 if kind == 'bool' else 2)))
    # kept(i): element i differs from the last element kept before it, L(i)
    R = {}
    kept = lambda i: ite(i == 0, lambda: True, lambda: ne(k, 'toptr', x[i], x[R['L'](i)]))
    R['L'] = L = k.rec('last', 0, lambda i, v: ite(i == 0, lambda: 0, lambda: If(ne(k, 'toptr', x[i], x[v]), i, v)))
    J = k.count('J', kept)
    k.lemma('0<=L<=t', lambda t: And(L(t) >= 0, L(t) <= t, Implies(t >= 1, L(t) < t)), pat=lambda t: L(t))
    k.lemma('J>=1', lambda t: Implies(t >= 1, J(t) >= 1), pat=lambda t: J(t))
    k.lemma('L(1)=0,J(1)=1', lambda t: Implies(t >= 1, And(L(1) == 0, J(1) == 1)), pat=lambda t: J(t))
    k.out_arr('tolength', 1)
    k.cell('tolength', J(n))
    k.out('toptr', n, at=lambda i: J(i), when=kept, val=lambda i: x[i])
    k.expr(lambda t: J(t) - 1, lambda t: J(t + 1) - 1, lambda t: L(t + 1), J)
    k.inv(lambda mem, t: fa(mem, [(J(t + 1), n)], lambda q: eq(mem.mem('toptr', q), x[q]), pat=pt(mem, 'toptr')), 'rest unchanged')
    k.inv(lambda mem, t: Implies(t + 1 <= n, eq(mem.mem('toptr', J(t + 1) - 1), x[L(t + 1)])), 'last kept')


def subrange(k, last):
    """whether two of the first (length - last) ranges hold the same elements"""
    n = k.size('length')
    T = k.ghost_len('tmpptr', lambda: k.rng.randint(0, 6))
    s, e = k.startstops('fromstarts', 'fromstops', n, hi=T)
    kind, bits, sg = CT[k.ct('tmpptr')]
    x = k.arr('tmpptr', T, gen=(lambda i: float(k.rng.randint(0, 1))) if kind == 'float' else (lambda i: k.rng.randint(0, 1)))
    ln = lambda i: e[i] - s[i]
    m = If(n > last, n - last, 0)
    mis = k.rec('mis', 0, lambda i, j, q, v: v + If(ne(k, 'tmpptr', x[s[i] + q], x[s[j] + q]), 1, 0), params=2)
    k.monon(mis)
    same = lambda i, j: ite(ln(i) == ln(j), lambda: mis(i, j, ln(i)) == 0, lambda: False)
    row = k.rec('row', 0, lambda i, j, v: ite(j <= i, lambda: v, lambda: If(same(i, j), 1, v)), params=1)
    k.lemma2('row in {0,1}', lambda i, t: And(row(i, t) >= 0, row(i, t) <= 1), pat=lambda i, t: row(i, t), plo=0, phi=None)
    k.mono2(row)
    k.lemma2('row is 0 up to the diagonal', lambda i, t: Implies(t <= i + 1, row(i, t) == 0), pat=lambda i, t: row(i, t), plo=0, phi=None)
    any_ = k.rec('any', 0, lambda i, v: If(row(i, m) == 1, 1, v))
    k.lemma('any in {0,1}', lambda t: And(any_(t) >= 0, any_(t) <= 1), pat=lambda t: any_(t))
    k.mono(any_)
    k.out_arr('toequal', 1)
    k.cell('toequal', any_(m))
    k.expr(any_, lambda t: 1 - any_(t), lambda t, u: row(t, t + 1 + u), lambda t, u: 1 - row(t, t + 1 + u))
    k.trips((0, m), (0, lambda t: m - t - 1))
    k.inv(lambda mem, t, u, v: mis(t, t + 1 + u, v) == 0, 'no mismatch so far')

@contract('NumpyArray_subrange_equal', prop='P15')
def _(k):
    subrange(k, 1)


def subrange_strict(k):
    subrange(k, 0)


@contract('NumpyArray_unique_strings', prop='P15', prover=dict(ms_h=12000))
def _(k):
    n1 = k.size('offsetslength')
    N = If(n1 >= 1, n1 - 1, 0)
    o = k.offsets('offsets', n1)
    T = k.ghost_len('toptr', lambda: (o[n1 - 1] if n1 > 0 else 0) + k.rng.randint(0, 1))
    if k.symbolic:
        k.req(Implies(n1 >= 1, o[n1 - 1] <= T))
    else:
        k.req(n1 < 1 or o[n1 - 1] <= T)
    x = k.out_arr('toptr', T, inout=True, gen=lambda i: k.rng.randint(0, 1))
    k.arr('outoffsets', n1)
    ln = lambda i: o[i + 1] - o[i]
    mis = k.rec('mis', 0, lambda i, j, q, v: If(x[o[i] + q] != x[o[j] + q], 1, v), params=2)
    diff = lambda i, j: ite(ln(i) != ln(j), lambda: True, lambda: mis(i, j, ln(i)) != 0)
    R = {}
    kept = lambda i: ite(i == 0, lambda: True, lambda: diff(R['L'](i), i))
    R['L'] = L = k.rec('last', 0, lambda i, v: ite(i == 0, lambda: 0, lambda: If(diff(v, i), i, v)))
    J = k.count('J', kept)
    P = k.rec('pos', 0, lambda i, v: v + ite(kept(i), lambda: ln(i), lambda: 0))
    k.lemma('0<=pos<=o[t]', lambda t: And(P(t) >= 0, Implies(n1 >= 1, P(t) <= o[t])), pat=lambda t: P(t), upto=N)
    k.mono(P, upto=N)
    k.lemma('0<=L<t', lambda t: And(L(t) >= 0, Implies(t >= 1, L(t) < t)), pat=lambda t: L(t))
    k.lemma('length of the last kept', lambda t: Implies(t >= 1, And(ln(L(t)) == ln(t - 1), P(t) == P(L(t)) + ln(L(t)))), pat=lambda t: L(t), upto=N)
    k.out_arr('tolength', 1)
    k.cell('tolength', J(N) + 1)
    k.out('toptr', dims=[(0, N), (0, ln)], at=lambda i, q: P(i) + q, when=lambda i, q: kept(i), val=lambda i, q: x[o[i] + q])
    k.expr(J, P, lambda t, u: P(t) + u, lambda t: ite(t == 0, lambda: 0, lambda: P(L(t))), lambda t: ite(t == 0, lambda: 0, lambda: ln(t - 1)),
           lambda t, u: If(mis(L(t), t, u) != 0, 1, 0))
    k.inv(lambda mem, t: fa(mem, [(P(t), T)], lambda q: eq(mem.mem('toptr', q), x[q]), pat=pt(mem, 'toptr')), 'rest unchanged')
    k.inv(lambda mem, t, u: fa(mem, [(P(t) + u, T)], lambda q: eq(mem.mem('toptr', q), x[q]), pat=pt(mem, 'toptr')), 'rest unchanged')
    k.inv(lambda mem, t: fa(mem, [(0, ite(And(t >= 1, t <= N), lambda: ln(L(t)), lambda: 0))], lambda q: eq(mem.mem('toptr', P(L(t)) + q), x[o[L(t)] + q])), 'last kept')
    k.hint(lambda t, u: u, lambda t, u: o[t] + u)
    k.inv(lambda mem, t, u: fa(mem, [(0, u)], lambda q: eq(mem.mem('toptr', P(t) + q), x[o[t] + q])), 'copied so far')


# ---- sorting kernels: the result is a rearrangement of each segment, in order
def lt(k, name, a, b):
    kind, n, s = CT[k.ct(name)]
    return fcmp('olt', n, a, b) if kind == 'float' else a < b


def valgen(k, name):
    kind, n, s = CT[k.ct(name)]
    lo, hi = (0, 1) if kind == 'bool' else (-128, 127) if s else (0, 255)
    small = k.rng.random() < 0.6 if k.mode == 'gen' else False

    def g(i):
        if small:
            v = k.rng.randint(0, 1 if kind == 'bool' else 3)
        elif kind == 'int' and k.rng.random() < 0.3:
            v = k.rng.choice(trange(k.ct(name)))
        else:
            v = k.rng.randint(lo, hi)
        return float(v) + (0.5 if kind == 'float' and k.rng.random() < 0.3 else 0) if kind == 'float' else v
    return g


def seglen(k):
    """length of one segment: sometimes beyond the small sizes that library sorts treat specially"""
    r = k.rng.random()
    return k.rng.randint(17, 40) if r < 0.12 else k.rng.randint(0, 4)


def notnan(k, name, x, n):
    kind, bits, s = CT[k.ct(name)]
    if kind == 'float':
        k.req(k.forall(0, n, lambda i: fcmp('ord', bits, x[i], x[i]), pat=lambda i: x[i]))


def segments(k, name, count, total):
    """offsets of `count` segments covering [0, total)"""
    st = [0]

    def g(i):
        st[0] = 0 if i == 0 else st[0] + seglen(k)
        return st[0]
    return k.offsets(name, count, gen=g)


def in_order(k, name, a, b, asc):
    """b may follow a"""
    return If(asc, Not(lt(k, name, b, a)), Not(lt(k, name, a, b)))


def index_order(k, name, x, asc):
    """order(a, b): the element at position a goes before the one at b"""
    return lambda a, b: If(asc, lt(k, name, x[a], x[b]), lt(k, name, x[b], x[a]))


def mark(i):
    """always true; a name for the segments that a proof speaks of, so that the solver only looks at those"""
    return uf('segment', I, B)(toz(i)) if is_sym(i) else True


def here(i, *fs, any_=False):
    return Implies(mark(i), Or(*fs) if any_ else And(*fs))


def arranged(mem, R, o, T, base, order, stable=None):
    """in the first T segments, R[p] - base(i, p) is a position in the segment, none appears twice, and they list the elements in order"""
    at = lambda p: mem.mem(R, p)
    pt1 = pt(mem, R)
    if mem.mode == 'con' and len(mem._mem.get(R, ())) > 10:
        raise TooBig('segments')
    P1 = (lambda i, p: (mark(i), pt1(p))) if pt1 else None
    P2 = (lambda i, p, r: (mark(i), pt1(p), pt1(r))) if pt1 else None
    seg = (lambda i: o[i], lambda i, *p: o[i + 1])
    yield fa(mem, [T, seg], lambda i, p: here(i, at(p) - base(i, p) >= 0, at(p) - base(i, p) < o[i + 1] - o[i]), pat=P1), 'positions'
    yield fa(mem, [T, seg, (lambda i, p: o[i], lambda i, p: p)], lambda i, p, r: here(i, at(p) - base(i, p) != at(r) - base(i, r)), pat=P2), 'distinct'
    val = lambda i, p: o[i] + at(p) - base(i, p)
    yield fa(mem, [T, seg, (lambda i, p: o[i], lambda i, p: p)], lambda i, p, r: here(i, Not(order(val(i, p), val(i, r)))), pat=P2), 'in order'
    if stable is not None:
        yield fa(mem, [T, seg, (lambda i, p: o[i], lambda i, p: p)], lambda i, p, r: here(i, Not(stable), order(val(i, r), val(i, p)), val(i, r) < val(i, p), any_=True), pat=P2), 'stable'


def segment_invariants(k, o, m, n, R, order, stable=None, relative=False):
    """what holds between the segments of a sort of positions: those done are arranged, the rest counts up"""
    zero = (lambda i, p: 0) if relative else (lambda i, p: o[i])
    M = If(m >= 1, m - 1, 0)
    if k.symbolic:
        i = z3.Int('si')
        k.axioms.append(z3.ForAll([i], mark(i), patterns=[mark(i)]))
    first = lambda t: ite(And(t >= 0, t < m), lambda: o[t], lambda: n)
    done = 4 if stable is not None else 3
    for j in range(done):
        def add(j, name):
            k.inv(lambda mem, t: list(arranged(mem, R, o, (0, smin(t, M)), zero, order, stable))[j][0], name)
            k.inv(lambda mem, t, u: list(arranged(mem, R, o, (0, smin(t, M)), zero, order, stable))[j][0], name)
            # the segment at hand, of which the first u positions have been made relative to it
            k.inv(lambda mem, t, u: list(arranged(mem, R, o, (t, smin(t + 1, M)), lambda i, p: If(p < o[i] + u, 0, o[i]), order, stable))[j][0], 'this segment: ' + name)
        add(j, ('positions', 'distinct', 'in order', 'stable')[j])
    k.inv(lambda mem, t: fa(mem, [(first(t), n)], lambda p: mem.mem(R, p) == p, pat=pt(mem, R)), 'the rest counts up')
    if relative:
        k.inv(lambda mem, t, u: fa(mem, [(first(t) + u, first(t + 1))], lambda p: And(mem.mem(R, p) >= first(t), mem.mem(R, p) < first(t + 1)), pat=pt(mem, R)), 'positions of this segment')
    else:
        k.inv(lambda mem, t: fa(mem, [(0, n)], lambda p: And(mem.mem(R, p) >= 0, mem.mem(R, p) < n), pat=pt(mem, R)), 'positions in the array')
    k.trips((0, M))
    k.inv(lambda mem, t, u: fa(mem, [(first(t + 1), n)], lambda p: mem.mem(R, p) == p, pat=pt(mem, R)), 'the rest counts up')


def truth(v):
    return v if is_sym(v) else bool(v)


def smin(a, b):
    return If(a < b, a, b)


@contract('argsort', prop='P15', slow=True, prover=dict(ms_h=6000))
def _(k):
    m = k.size('offsetslength')
    o = segments(k, 'offsets', m, None)
    n = k.int('length', lo=0, hi=LMAX, gen=lambda: o[m - 1] if m > 0 else k.rng.randint(0, 3))
    k.req(Or(m < 1, ite(m >= 1, lambda: o[m - 1] <= n, lambda: True)))
    x = k.arr('fromptr', n, gen=valgen(k, 'fromptr'))
    notnan(k, 'fromptr', x, n)
    asc, stable = truth(k.int('ascending')), truth(k.int('stable'))
    k.out_arr('toptr', n)
    M = If(m >= 1, m - 1, 0)
    at = lambda mem, i, q: mem.mem('toptr', o[i] + q)
    ln = lambda i: o[i + 1] - o[i]
    k.post(lambda mem: fa(mem, [(0, M), (0, ln)], lambda i, q: here(i, at(mem, i, q) >= 0, at(mem, i, q) < ln(i))), 'positions lie in their segment')
    k.post(lambda mem: fa(mem, [(0, M), (0, ln), (0, lambda i, q: q)], lambda i, q, r: here(i, at(mem, i, q) != at(mem, i, r))), 'no position appears twice in a segment')
    k.order = index_order(k, 'fromptr', x, asc)
    v = lambda mem, i, q: o[i] + at(mem, i, q)
    k.post(lambda mem: fa(mem, [(0, M), (1, ln)], lambda i, q: here(i, Not(k.order(v(mem, i, q), v(mem, i, q - 1))))), 'each segment is in order')
    k.post(lambda mem: fa(mem, [(0, M), (1, ln)], lambda i, q: here(i, Not(stable), k.order(v(mem, i, q - 1), v(mem, i, q)), at(mem, i, q - 1) < at(mem, i, q), any_=True)), 'stable: equal elements keep their order')
    counted(k)
    segment_invariants(k, o, m, n, '$new0', k.order, stable, relative=True)
    k.inv(lambda mem, t: fa(mem, [(0, t)], lambda q: mem.mem('toptr', q) == mem.mem('$new0', q), pat=pt(mem, 'toptr')), 'copied')


@contract('quick_argsort', prop='P15', bounded='explicit-stack quicksort: no inductive invariant for the stack of pending segments was written')
def _(k):
    m = k.size('offsetslength')
    o = segments(k, 'offsets', m, None)
    n = k.int('length', lo=0, hi=LMAX, gen=lambda: o[m - 1] if m > 0 else k.rng.randint(0, 3))
    k.req(Or(m < 1, ite(m >= 1, lambda: o[m - 1] <= n, lambda: True)))
    x = k.arr('fromptr', n, gen=valgen(k, 'fromptr'))
    notnan(k, 'fromptr', x, n)
    asc, stable = k.int('ascending'), k.int('stable')
    lv = k.int('maxlevels', lo=48, hi=48, gen=lambda: 48)
    k.out_arr('toptr', n); k.out_arr('tmpbeg', 48); k.out_arr('tmpend', 48)
    M = If(m >= 1, m - 1, 0)
    at = lambda mem, i, q: mem.mem('toptr', o[i] + q)
    ln = lambda i: o[i + 1] - o[i]
    k.post(lambda mem: fa(mem, [(0, M), (0, ln)], lambda i, q: And(at(mem, i, q) >= 0, at(mem, i, q) < ln(i))), 'positions lie in their segment')
    k.post(lambda mem: fa(mem, [(0, M), (0, ln), (0, lambda i, q: q)], lambda i, q, r: at(mem, i, q) != at(mem, i, r)), 'no position appears twice in a segment')
    v = lambda mem, i, q: x[o[i] + at(mem, i, q)]
    k.post(lambda mem: fa(mem, [(0, M), (1, ln)], lambda i, q: in_order(k, 'fromptr', v(mem, i, q - 1), v(mem, i, q), asc != 0)), 'each segment is in order')


@contract('sort', prop='P15', slow=True)
def _(k):
    m = k.size('offsetslength')
    o = segments(k, 'offsets', m, None)
    n = k.int('length', lo=0, hi=LMAX, gen=lambda: o[m - 1] if m > 0 else k.rng.randint(0, 3))
    k.req(Or(m < 1, ite(m >= 1, lambda: o[m - 1] <= n, lambda: True)))
    pl = k.int('parentslength', lo=0, hi=LMAX, gen=lambda: n)
    k.req(pl <= n)
    x = k.arr('fromptr', n, gen=valgen(k, 'fromptr'))
    notnan(k, 'fromptr', x, n)
    asc, stable = truth(k.int('ascending')), truth(k.int('stable'))
    k.out_arr('toptr', pl)
    M = If(m >= 1, m - 1, 0)
    if not k.symbolic:
        def ok(mem):
            for i in range(M):
                if o[i + 1] <= pl:
                    want = sorted((x[j] for j in range(o[i], o[i + 1])), reverse=not asc)
                    if [mem.mem('toptr', j) for j in range(o[i], o[i + 1])] != want:
                        return False
            return True
        k.post(ok, 'each segment holds its elements in order')
    else:
        # the positions that the function sorted show that each segment is a rearrangement
        k.order = index_order(k, 'fromptr', x, asc)
        for j in range(3):
            k.post(lambda mem, j=j: list(arranged(mem, '$new0', o, (0, M), lambda i, p: o[i], k.order))[j][0], ('positions', 'distinct', 'in order')[j])
        k.post(lambda mem: fa(mem, [(0, pl)], lambda q: eq(mem.mem('toptr', q), x[mem.mem('$new0', q)])), 'elements at those positions')
    k.order = index_order(k, 'fromptr', x, asc)
    k.inv(lambda mem, t: fa(mem, [(0, t)], lambda q: eq(mem.mem('toptr', q), x[mem.mem('$new0', q)]), pat=pt(mem, 'toptr')), 'copied')
    counted(k)
    segment_invariants(k, o, m, n, '$new0', k.order)


@contract('quick_sort', prop='P15', bounded='explicit-stack quicksort: no inductive invariant for the stack of pending segments was written')
def _(k):
    n = k.size('length')
    # consecutive, non-overlapping segments
    if k.mode == 'gen':
        st, ed, p = [], [], 0
        for i in range(n):
            p += k.rng.choice([0, 0, 1])
            st.append(p); p += seglen(k); ed.append(p)
        tot = p + k.rng.choice([0, 1])
        s = k.arr('fromstarts', n, gen=lambda i: st[i]); e = k.arr('fromstops', n, gen=lambda i: ed[i])
    else:
        s = k.arr('fromstarts', n); e = k.arr('fromstops', n)
        tot = None
    N = k.ghost_len('tmpptr', lambda: tot)
    if not k.symbolic:
        k.req(all(0 <= s[i] <= e[i] <= N for i in range(n)) and all(e[i] <= s[i + 1] for i in range(n - 1)))
    x = k.out_arr('tmpptr', N, inout=True, gen=valgen(k, 'tmpptr'))
    notnan(k, 'tmpptr', x, N)
    asc = k.int('ascending')
    k.int('maxlevels', lo=48, hi=48, gen=lambda: 48)
    k.out_arr('tmpbeg', 48); k.out_arr('tmpend', 48)
    if not k.symbolic:
        def ok(mem):
            want = [x[j] for j in range(N)]
            for i in range(n):
                want[s[i]:e[i]] = sorted(want[s[i]:e[i]], reverse=not asc)
            return [mem.mem('tmpptr', j) for j in range(N)] == want
        k.post(ok, 'each segment holds its elements in order, the rest is unchanged')


def strgen(k):
    """a string: short, over a small alphabet, sometimes with bytes above 127 or long"""
    r = k.rng.random()
    n = k.rng.choice([256, 257, 300]) if r < 0.03 else k.rng.randint(0, 4)
    return [k.rng.choice([97, 97, 97, 98, 200, 0]) for _ in range(n)]


@contract('NumpyArray_sort_asstrings_uint8', prop='P15', bounded='std::vector<std::string> and std::sort over strings are outside the verified subset')
def _(k):
    n1 = k.size('offsetslength')
    k.req(n1 >= 1)
    if k.mode == 'gen':
        words = [strgen(k) for _ in range(n1 - 1)]
        if k.rng.random() < 0.1:
            words = [strgen(k)[:3] for _ in range(n1 - 1)]
        off = [0]
        for w in words:
            off.append(off[-1] + len(w))
        data = [c for w in words for c in w]
        sh = 0
        o = k.offsets('offsets', n1, gen=lambda i: off[i])
    else:
        o = k.offsets('offsets', n1)
    T = k.ghost_len('fromptr', lambda: len(data))
    if not k.symbolic:
        k.req(o[0] == 0 and o[n1 - 1] <= T)
    x = k.arr('fromptr', T, gen=lambda i: data[i])
    asc, stable = k.int('ascending'), k.int('stable')
    k.out_arr('toptr', o[n1 - 1] - o[0]); k.out_arr('outoffsets', n1)
    if not k.symbolic:
        def ok(mem):
            w = sorted((bytes(x[j] for j in range(o[i], o[i + 1])) for i in range(n1 - 1)), reverse=not asc)
            oo = [0]
            for y in w:
                oo.append(oo[-1] + len(y))
            return [mem.mem('outoffsets', i) for i in range(n1)] == oo and bytes(mem.mem('toptr', j) for j in range(oo[-1])) == b''.join(w)
        k.post(ok, 'the strings in order')


@contract('ListOffsetArray_argsort_strings', prop='P15', bounded='std::vector growth and strncmp are outside the verified subset')
def _(k):
    n = k.size('length')
    if k.mode == 'gen':
        if k.rng.random() < 0.3:
            n = k.inputs['length'] = k.rng.randint(17, 40)
        words = [strgen(k) for _ in range(n)]
        st, data = [], []
        for w in words:
            if k.rng.random() < 0.2:
                data.append(98)
            st.append(len(data)); data += w
        par, q = [], 0
        big = k.rng.random() < 0.5
        for i in range(n):
            q += k.rng.random() < (0.05 if big else 0.3)
            par.append(int(q))
    p = k.arr('fromparents', n, lo=0, hi=LMAX, gen=lambda i: par[i])
    S = k.ghost_len('stringdata', lambda: len(data))
    s = k.arr('stringstarts', n, gen=lambda i: st[i]); e = k.arr('stringstops', n, gen=lambda i: st[i] + len(words[i]))
    if not k.symbolic:
        k.req(all(0 <= s[i] <= e[i] <= S for i in range(n)))
        k.req(all(p[i] <= p[i + 1] for i in range(n - 1)))
    x = k.arr('stringdata', S, gen=lambda i: data[i])
    stable, asc, local = k.int('is_stable'), k.int('is_ascending'), k.int('is_local')
    k.out_arr('tocarry', n)
    if not k.symbolic:
        W = lambda j: bytes(x[q] for q in range(s[j], e[j]))

        def ok(mem):
            i = 0
            while i < n:
                j = i
                while j < n and p[j] == p[i]:
                    j += 1
                c = [mem.mem('tocarry', q) + (i if local else 0) for q in range(i, j)]
                if sorted(c) != list(range(i, j)):
                    return False
                for a, b in zip(c, c[1:]):
                    if (W(a) > W(b)) if asc else (W(a) < W(b)):
                        return False
                    if stable and W(a) == W(b) and a > b:
                        return False
                i = j
            return True
        k.post(ok, 'a rearrangement of each group of strings, in order (stable: equal strings keep their order)')


@contract('ListOffsetArray_local_preparenext_64', prop='P06')
def _(k):
    n = k.size('length')
    if k.mode == 'gen':
        perm = list(range(n)); k.rng.shuffle(perm)
    x = k.arr('fromindex', n, gen=lambda i: perm[i])
    k.out_arr('tocarry', n)
    at = lambda mem, q: mem.mem('tocarry', q)
    k.order = lambda a, b: x[a] < x[b]
    k.post(lambda mem: fa(mem, [(0, n)], lambda q: And(at(mem, q) >= 0, at(mem, q) < n)), 'positions in range')
    k.post(lambda mem: fa(mem, [(0, n), (0, lambda q: q)], lambda q, r: at(mem, q) != at(mem, r)), 'no position twice')
    k.post(lambda mem: fa(mem, [(1, n)], lambda q: x[at(mem, q - 1)] <= x[at(mem, q)]), 'in order of fromindex')
    counted(k)
    k.inv(lambda mem, t: fa(mem, [(0, t)], lambda q: mem.mem('tocarry', q) == mem.mem('$new0', q), pat=pt(mem, 'tocarry')), 'copied')


def counted(k):
    """the positions are counted up before they are sorted"""
    k.inv(lambda mem, t: fa(mem, [(0, t)], lambda q: mem.mem('$new0', q) == q, pat=pt(mem, '$new0')), 'counted up')
