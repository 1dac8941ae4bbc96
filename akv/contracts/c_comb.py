"""Combinations of n positions of each list (P13).

bin(m, q) is Pascal's binomial coefficient.  With r positions still to choose from a window of w elements there are
count(r, w) combinations; listed in lexicographic order, the y-th from the END of that list starts at the w'-th element from
the end of the window exactly when count(r, w'-1) < y <= count(r, w'), and continues with the combination number
y - count(r, w'-1) from the end of the combinations of the remaining r-1 positions.  That is fromend(k, j, y): how far
from the window's end position k of the combination is, when positions j.. are still to be chosen.
"""
import math
import z3
from .. import registry
from ..registry import contract
from ..cands import fa
from ..ir import Unsupported
from .. import dsl
from ..dsl import KNONE, And, Or, Implies, If, toz, LMAX, I, mul, TooBig, Reject

WMAX = 1 << 40      # window sizes, positions and n


def arg(name, ty, ptr=0, const=False):
    return dict(name=name, type=ty, ptr=ptr, const=const)


STEP = 'awkward_ListArray_combinations_step_64'
registry.SIGS[STEP] = dict(family='awkward_ListArray_combinations_step', ret='void', args=[
    arg('tocarry', 'int64_t', 2), arg('toindex', 'int64_t', 1), arg('fromindex', 'int64_t', 1), arg('j', 'int64_t'),
    arg('stop', 'int64_t'), arg('n', 'int64_t'), arg('replacement', 'bool')])
registry.FAMILIES.setdefault('awkward_ListArray_combinations_step', [STEP])


def binomial(k):
    """bin(m, q) for m >= 0, q >= 0, with the facts used about it; each is proved from Pascal's rule"""
    if k.mode != 'sym':
        return lambda m, q: math.comb(m, q) if m >= 0 and q >= 0 else 0
    f = z3.Function('bin', I, I, I)
    m, q, m2 = z3.Ints('bm bq bm2')

    def pascal(m, q):
        return And(Implies(And(m >= 0, q >= 1), f(m + 1, q) == f(m, q) + f(m, q - 1)), Implies(m >= 0, f(m + 1, 0) == 1))
    zero = [z3.ForAll([q], f(0, q) == If(q == 0, 1, 0))]
    k.pascal = pascal
    k.axioms += [z3.ForAll([m], Implies(m >= 0, f(m, 0) == 1), patterns=[f(m, 0)]), z3.ForAll([q], Implies(q >= 1, f(0, q) == 0), patterns=[f(0, q)])]

    def induct(name, P, ax, dom=lambda m, q: And(m >= 0, q >= 0), use=lambda m, q: [(m, q), (m, q - 1)], more=lambda m, q: []):
        """for all m by induction, for all q: P(m, q)"""
        def goals():
            a, b = z3.Ints('ia ib')
            base = ([f(0, b) == If(b == 0, 1, 0), f(0, b - 1) == If(b - 1 == 0, 1, 0), f(0, -b) == If(b == 0, 1, 0), dom(z3.IntVal(0), b)] + more(z3.IntVal(0), b), P(z3.IntVal(0), b))
            hyp = [a >= 0, f(a, 0) == 1, dom(a + 1, b), pascal(a, b), pascal(a, b - 1), pascal(a, a + 1 - b)] + [Implies(dom(x, y), P(x, y)) for x, y in use(a, b)] + more(a, b) + more(a + 1, b)
            return [base, (hyp, P(a + 1, b))]
        k.theorem('binomial: ' + name, goals, ax)
    induct('non-negative', lambda m, q: f(m, q) >= 0, z3.ForAll([m, q], Implies(And(m >= 0, q >= 0), f(m, q) >= 0), patterns=[f(m, q)]))
    over = lambda m, q: Implies(q > m, f(m, q) == 0)
    induct('zero above the diagonal', over, z3.ForAll([m, q], Implies(And(m >= 0, q > m), f(m, q) == 0), patterns=[f(m, q)]))
    induct('one to choose', lambda m, q: Implies(q == 1, f(m, q) == m), z3.ForAll([m, q], Implies(And(m >= 0, q == 1), f(m, q) == m), patterns=[f(m, q)]))
    zeros = lambda m, q: [Implies(And(x >= 0, y > x), f(x, y) == 0) for x, y in ((m, q), (m, q - 1), (m, m + 1))]
    induct('all chosen', lambda m, q: Implies(q == m, f(m, q) == 1), z3.ForAll([m, q], Implies(And(m >= 0, q == m), f(m, q) == 1), patterns=[f(m, q)]), more=zeros)

    def grow():
        a, b = z3.Ints('ia ib')
        return [([a >= 0, b >= 0, pascal(a, b), f(a, b - 1) >= 0, f(a, 0) == 1, Implies(b == 0, f(a, b) == 1), Implies(b >= 1, f(a, b - 1) >= 0)], f(a, b) <= f(a + 1, b))]
    k.theorem('binomial: non-decreasing in the window', grow,
              z3.ForAll([m, m2, q], Implies(And(m >= 0, m <= m2, q >= 0), f(m, q) <= f(m2, q)), patterns=[z3.MultiPattern(f(m, q), f(m2, q))]))
    k.binf, k.induct, k.binzeros = f, induct, zeros
    return lambda a, b: f(toz(a), toz(b))


def mx0(x):
    return max(0, x) if not dsl.is_sym(x) else If(x > 0, x, 0)


class Spec:
    def __init__(self, k, n, rep):
        self.k, self.n, self.rep = k, n, rep
        self.bin = binomial(k)
        if k.mode == 'sym':
            self.W = z3.Function('fromend', I, I, I, I)
            y, a, b = z3.Ints('wy wa wb')
            # one position left: the y-th combination from the end is the y-th element from the end
            k.axioms.append(z3.ForAll([a, b, y], Implies(And(a == b, b == toz(n) - 1, y >= 1), self.W(a, b, y) == y), patterns=[self.W(a, b, y)]))
        else:
            self.memo = {}

    def size(self, r, w):
        """bin's first argument"""
        return w + If(self.rep, r - 1, 0) if dsl.is_sym(self.rep) else w + (r - 1 if self.rep else 0)

    def count(self, r, w):
        if self.k.mode == 'sym':
            return If(toz(w) <= 0, 0, self.bin(self.size(r, w), r))
        return 0 if w <= 0 else self.bin(self.size(r, w), r)

    def step_facts(self, j, w):
        """the definitions unfolded for a window of w > 0 elements with positions j.. to choose"""
        k, n, W = self.k, toz(self.n), self.W
        r = n - j
        s = self.size(r, w)
        a, y = z3.Ints('wa wy')
        return [Implies(w > 0, k.pascal(s - 1, r)),
                z3.ForAll([a, y], Implies(And(w > 0, a >= j, a < n, self.count(r, w - 1) < y, y <= self.count(r, w)),
                                          W(a, j, y) == If(a == j, w, W(a, j + 1, y - self.count(r, w - 1)))), patterns=[W(a, j, y)])]

    def fromend(self, a, j, y):
        if self.k.mode == 'sym':
            return self.W(toz(a), toz(j), toz(y))
        if j >= self.n or y < 1:
            raise Reject('fromend')
        key = (a, j, y)
        if key not in self.memo:
            w, r = 1, self.n - j
            while self.count(r, w) < y:
                w += 1
                if w > 5000:
                    raise TooBig('fromend')
            self.memo[key] = w if a == j else self.fromend(a, j + 1, y - self.count(r, w - 1))
        return self.memo[key]


def notbig(k, total):
    if k.mode != 'sym' and total > 3000:
        raise Reject('too many combinations to list here')


def rowpat(st, region):
    if st.mode == 'con':
        return None
    A = st.arr(region)
    if A.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return None
    return lambda a, p: z3.Select(z3.Select(A, a), p)


def call_step(S, measure=None, same=False):
    """the contract of combinations_step at a call"""
    def h(ex, ins, c):
        k = ex.k
        if len(ins.args) != 7 or [t.k for t, _ in ins.args] != ['ptr'] * 3 + ['int'] * 4:
            raise Unsupported(f'call of {c}')
        v = [ex.val(x, t) for t, x in ins.args]
        for x, nm in zip(v[:3], ('tocarry', 'toindex', 'fromindex')):
            if len(x.alts) != 1 or x.alts[0][1] != nm or x.alts[0][2] != 0:
                raise Unsupported(f'call of {c} on other buffers')
        j, stop, n = (toz(x.S()) for x in v[3:6])
        rep = v[6].t
        g, w_ = ex.guard, ex.where(ins)
        ob = lambda nm, f: ex.oblige('call', f'{nm} ({w_})', g, f if isinstance(f, list) else [f])
        A, X, F = ex.mem['tocarry'], ex.mem['toindex'], ex.mem['fromindex']
        sel = lambda m, i: ex_sel(m, i)
        T, s = sel(X, 0), sel(F, j)
        if measure is not None:
            for f in S.step_facts(toz(k.scal['j']), k.scal['stop'] - sel(F, k.scal['j'])):
                ex.assume(f)
            ob('recursion is well founded', j >= toz(measure) if ex.fn.name == STEP and c != STEP else j > toz(measure))
        ob('callee precondition: position', And(j >= 0, j < n))
        ob('callee precondition: same n and replacement', And(n == toz(S.n), dsl.Iff(toz(rep), toz(S.rep))))
        ob('callee precondition: window', And(s >= 0, s <= WMAX, stop >= 0, stop <= WMAX))
        ob('callee precondition: output position', And(T >= 0))
        ob('callee precondition: equal output positions', dsl_fa([(0, n)], lambda i: sel(X, i) == T))
        E = ex.fresh('end')
        ex.assume(E == T + S.count(n - j, stop - s))
        ob('callee precondition: room for the combinations', dsl_fa([(0, n)], lambda i: E <= toz(k.arrs['tocarry'].rowlen(i))))
        A2, X2, F2 = ex.fresh('M_tocarry', A.sort()), ex.fresh('M_toindex', X.sort()), ex.fresh('M_fromindex', F.sort())
        a, p = z3.Ints('ca cp')
        ap = z3.Select(z3.Select(A2, a), p)
        ex.assume(z3.ForAll([a], Implies(And(g, a >= 0, a < n), z3.Select(X2, a) == E), patterns=[z3.Select(X2, a)]))
        ex.assume(z3.ForAll([a], Implies(And(g, a >= 0, a < j), z3.Select(F2, a) == sel(F, a)), patterns=[z3.Select(F2, a)]))
        ex.assume(Implies(g, z3.Select(F2, j) == If(s < stop, stop, s)))
        ex.assume(z3.ForAll([a, p], Implies(And(g, a >= 0, a < n), ap == If(And(T <= p, p < E), If(a < j, sel(F, a), stop - S.fromend(a, j, E - p)), sel(sel(A, a), p))), patterns=[ap]))
        ex.mem['tocarry'], ex.mem['toindex'], ex.mem['fromindex'] = A2, X2, F2
        ex.range_axiom(X2, 'int64_t')
        ex.range_axiom(F2, 'int64_t')
        if same:
            ex.same.add(c)
        return None
    return h


def ex_sel(m, i):
    from ..sem import select_smart
    return select_smart(m, toz(i))


def dsl_fa(ranges, body):
    from ..sem import FA
    return FA(ranges, body)


def common(k, nmax):
    n = k.size('n', lo=1, hi=WMAX, gen=lambda: k.rng.randint(1, nmax))
    rep = k.bool('replacement')
    return n, rep, Spec(k, n, rep)


@contract('ListArray_combinations_step', prop='P13')
def _(k):
    n, rep, S = common(k, 4)
    j = k.int('j', lo=0, gen=lambda: k.rng.randint(0, n - 1))
    k.req(j < n)
    stop = k.size('stop', hi=WMAX)
    F0 = k.out_arr('fromindex', n, inout=True, gen=lambda i: k.rng.randint(0, 5))
    s = F0[j]
    k.req(And(s >= 0, s <= WMAX))
    T = k.ghost('T', lambda: k.inputs['toindex'][0] if 'toindex' in k.inputs else k.rng.randint(0, 2), hi=LMAX)
    X0 = k.out_arr('toindex', n, inout=True, gen=lambda i: T)
    k.req(k.forall(0, n, lambda i: X0[i] == T, pat=lambda i: X0[i]))
    r = n - j
    E = T + S.count(r, stop - s)
    notbig(k, E)
    L = k.ghost('room', lambda: min([len(x) for x in k.inputs['tocarry']]) if 'tocarry' in k.inputs else E + k.rng.randint(0, 2))
    k.req(E <= L)
    A0 = k.arr2('tocarry', n, rowlen=lambda i: L)
    k.out_regions.add('tocarry')
    d = If(rep, 0, 1) if dsl.is_sym(rep) else (0 if rep else 1)
    k.flags['calls'] = True
    k.callees['*'] = call_step(S, measure=j, same=True)

    def val(a, y):
        return dsl.ite(a < j, lambda: F0[a], lambda: stop - S.fromend(a, j, y))

    def now(st):
        return st.mem('fromindex', j)

    def reached(st):
        return E - S.count(r, stop - now(st))

    def rows(st, upto):
        if st.mode == 'con':
            return all(st.mem('tocarry', (a, p)) == (val(a, E - p) if T <= p < upto(a) else A0(a, p)) for a in range(n) for p in range(len(k.inputs['tocarry'][a])))
        return fa(st, [(0, n), (0, L)], lambda a, p: st.mem('tocarry', (a, p)) == If(And(T <= p, p < upto(a)), val(a, E - p), A0(a, p)), rowpat(st, 'tocarry'))

    def xs(st, f):
        return fa(st, [(0, n)], lambda a: st.mem('toindex', a) == f(a), None if st.mode == 'con' else pat1(st, 'toindex'))
    k.trips((0, mx0(stop - s)))
    k.trips((0, mx0(stop - s)), (0, n))
    k.inv(lambda st: And(now(st) >= s, Or(now(st) <= stop, now(st) == s)), 'current element in the window')
    k.inv(lambda st, t: now(st) == s + t, 'current element advances')
    k.inv(lambda st: fa(st, [(0, j)], lambda a: st.mem('fromindex', a) == F0[a], None if st.mode == 'con' else pat1(st, 'fromindex')), 'earlier positions kept')
    k.inv(lambda st: xs(st, lambda a: reached(st)), 'output positions')
    k.inv(lambda st: rows(st, lambda a: reached(st)), 'combinations so far')
    k.inv(lambda st, t, u: Or(u == 0, st.mem('fromindex', j + 1 if st.mode != 'con' or j + 1 < n else j) == now(st) + d), 'next position starts')
    k.inv(lambda st, t, u: xs(st, lambda a: reached(st) + If(a < u, 1, 0)), 'output positions while writing')
    k.inv(lambda st, t, u: rows(st, lambda a: reached(st) + If(a < u, 1, 0)), 'combination being written')
    k.post(lambda st: xs(st, lambda a: E), 'every output position advances by the number of combinations')
    k.post(lambda st: rows(st, lambda a: E), 'the combinations, in lexicographic order, each position in its output; nothing else changes')
    k.post(lambda st: fa(st, [(0, j)], lambda a: st.mem('fromindex', a) == F0[a]), 'earlier positions are kept')
    k.post(lambda st: now(st) == (max(s, stop) if st.mode == 'con' else If(s < stop, stop, s)), 'window exhausted')


def pat1(st, region):
    A = st.arr(region)
    if A.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return None
    return lambda a: z3.Select(A, a)


def listed(k, n, rep, S, N, lo, hi):
    """contract of a kernel listing the combinations of windows [lo(i), hi(i)), i < N, one after the other"""
    O = k.rec('first', 0, lambda i, v: v + S.count(n, hi(i) - lo(i)))
    k.mono(O, upto=N)
    k.lemma('first>=0', lambda t: O(t) >= 0, pat=lambda t: O(t), upto=N)
    if k.mode != 'sym':
        notbig(k, O(N))
    L = k.ghost('room', lambda: min([len(x) for x in k.inputs['tocarry']]) if 'tocarry' in k.inputs else O(N) + k.rng.randint(0, 1))
    k.req(O(N) <= L)
    k.arr2('tocarry', n, rowlen=lambda i: L)
    k.out_regions.add('tocarry')
    k.out_arr('toindex', n)
    k.out_arr('fromindex', n)
    k.flags['calls'] = True
    k.callees[STEP] = call_step(S)
    k.out('toindex', n, val=lambda a: O(N), running=lambda t, a: O(t))

    def rows(st, upto):
        return fa(st, [(0, n), (0, upto), (lambda a, i: O(i), lambda a, i: O(i + 1))],
                  lambda a, i, p: st.mem('tocarry', (a, p)) == hi(i) - S.fromend(a, 0, O(i + 1) - p))
    k.inv(lambda st, t: rows(st, t), 'lists done')
    k.post(lambda st: rows(st, N), 'the combinations of every list, in lexicographic order')


@contract('ListArray_combinations', prop='P13', noinline=[STEP])
def _(k):
    n, rep, S = common(k, 4)
    N = k.size('length')
    s, e = k.startstops('starts', 'stops', N, maxcount=4, cap=WMAX)
    listed(k, n, rep, S, N, lambda i: s[i], lambda i: e[i])


@contract('RegularArray_combinations_64', prop='P13', noinline=[STEP])
def _(k):
    n, rep, S = common(k, 4)
    z = k.size('size', hi=WMAX, gen=lambda: k.rng.randint(0, 5))
    N = k.size('length', hi=WMAX, gen=lambda: k.rng.randint(0, 3))
    k.req(mul(z, N) <= WMAX)
    k.mulrows(z, loop=[lambda t: t], consts=[N])
    listed(k, n, rep, S, N, lambda i: mul(z, i), lambda i: mul(z, i) + z)


@contract('ListArray_combinations_length', prop='P13')
def _(k):
    n, rep, S = common(k, 6)
    N = k.size('length')
    s, e = k.startstops('starts', 'stops', N, maxcount=9, cap=WMAX)
    O = k.rec('first', 0, lambda i, v: v + S.count(n, e[i] - s[i]))
    k.mono(O, upto=N)
    k.lemma('first>=0', lambda t: O(t) >= 0, pat=lambda t: O(t), upto=N)
    k.req(O(N) <= LMAX)
    size0 = lambda i: S.size(n, e[i] - s[i])
    size = k.define('choosefrom', size0, lambda f, i: [f(i) == size0(i)])
    few = lambda i: If(2 * n > size(i), size(i) - n, n)
    if k.mode == 'sym':
        f = k.binf
        # precondition: the intermediate products fit in 64 bits (instances at the loop counters)
        fits = lambda i, q: Implies(And(i >= 0, i < N, q >= 1, q < few(i)), toz(mul(f(size(i), q), size(i) - q)) <= (1 << 63) - 1)
        k.loopfacts.append(lambda t, u: [fits(t, u), fits(t, u + 1)])
        x, y = z3.Ints('cx cy')
        im = dsl.uf('imul', I, I, I)
        k.axioms.append(z3.ForAll([x, y], im(x, y) == im(y, x), patterns=[im(x, y)]))
        ab = lambda m, q: Implies(q >= 1, q * f(m, q) == (m - q + 1) * f(m, q - 1))
        k.induct('absorption', ab, z3.BoolVal(True), more=lambda m, q: k.binzeros(m, q) + [f(m, 0) == 1])
        sy = lambda m, q: Implies(And(q >= 0, q <= m), f(m, q) == f(m, m - q))
        full = lambda m, q: [Implies(m >= 0, f(m, m) == 1), Implies(m >= 0, f(m, 0) == 1)]
        k.induct('symmetric', sy, z3.BoolVal(True), more=lambda m, q: k.binzeros(m, q) + full(m, q))
        k.loopfacts.append(lambda t: [sy(size(t), n)])
        k.loopfacts.append(lambda t, u: [sy(size(t), n)] + [Implies(And(size(t) >= 0, q >= 1), toz(mul(q, f(size(t), q))) == toz(mul(size(t) - q + 1, f(size(t), q - 1)))) for q in (u + 1, u + 2)])
        k.quots += [lambda t, u: f(size(t), u + 2), lambda t, u: f(size(t), u + 1)]
        k.expr(O, lambda t, u: f(size(t), u + 1), lambda t, u: f(size(t), u), lambda t, u: O(t))
    else:
        k.req(all(math.comb(size(i), q) * (size(i) - q) < 1 << 63 for i in range(N) for q in range(1, few(i))))
        k.expr(O, lambda t, u: S.bin(size(t), u + 1), lambda t, u: S.bin(size(t), u), lambda t, u: O(t))
    k.out_arr('totallen', 1); k.out_arr('tooffsets', N + 1)
    k.cell('totallen', O(N), running=lambda t: O(t))
    k.out('tooffsets', N + 1, val=lambda i: O(i))


@contract('combinations', prop='P13')
def _(k):
    n, rep, S = common(k, 4)
    k.int('singlelen', lo=0, hi=LMAX, gen=(0, 5))
    k.out_arr('toindex', 0)
    k.fail(lambda: True, ident=0, att=KNONE)
