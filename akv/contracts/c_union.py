"""Union (heterogeneous) arrays."""
from ..registry import contract
from ..dsl import *
from .c_list import cmax, sizes


@contract('UnionArray_fillindex', prop='P09')
def _(k):
    n = k.size('length'); o = k.int('toindexoffset', lo=0, hi=LMAX, gen=(0, 4)); f = k.arr('fromindex', n)
    k.out_arr('toindex', o + n)
    k.keep('toindex', o)
    k.out('toindex', n, at=lambda i: o + i, val=lambda i: cast(f[i], k.ct('fromindex'), k.ct('toindex')))


@contract('UnionArray_fillindex_count', prop='P09')
def _(k):
    n = k.size('length'); o = k.int('toindexoffset', lo=0, hi=LMAX, gen=(0, 4))
    k.out_arr('toindex', o + n)
    k.keep('toindex', o)
    k.out('toindex', n, at=lambda i: o + i, val=lambda i: i)


@contract('UnionArray_fillna', prop='P09')
def _(k):
    n = k.size('length'); f = k.arr('fromindex', n, gen=(-2, 5))
    k.out_arr('toindex', n)
    k.out('toindex', n, val=lambda i: If(f[i] >= 0, f[i], 0))


@contract('UnionArray_filltags', prop='P09')
def _(k):
    n = k.size('length'); o = k.int('totagsoffset', lo=0, hi=LMAX, gen=(0, 4)); b = k.int('base', lo=0, hi=127, gen=(0, 4))
    f = k.arr('fromtags', n, lo=0, hi=128 - b)
    k.out_arr('totags', o + n)
    k.keep('totags', o)
    k.out('totags', n, at=lambda i: o + i, val=lambda i: f[i] + b)


@contract('UnionArray_filltags_const', prop='P09')
def _(k):
    n = k.size('length'); o = k.int('totagsoffset', lo=0, hi=LMAX, gen=(0, 4)); b = k.int('base', lo=0, hi=127, gen=(0, 4))
    k.out_arr('totags', o + n)
    k.keep('totags', o)
    k.out('totags', n, at=lambda i: o + i, val=lambda i: b)


def rowsum(k, name, n, o):
    R = k.rec(name, 0, lambda i, v: v + o(i))
    k.mono(R, upto=n)
    k.lemma(name + '>=0', lambda t: R(t) >= 0, pat=lambda t: R(t), upto=n)
    return R


def flat(k):
    n = k.size('length')
    T = k.ghost('numcontents', lambda: len(k.inputs['offsetsraws']) if 'offsetsraws' in k.inputs else k.rng.randint(1, 3), lo=0, hi=128)
    def row(r, l):
        x, out = 0, []
        for _ in range(l):
            out.append(x)
            x += k.rng.randint(0, 2)
        return out
    raws = k.arr2('offsetsraws', T, gen=row)
    tags = k.arr('fromtags', n, lo=0, hi=T)
    idx = k.arr('fromindex', n, lo=0, hi=cmax(k, 'fromindex'), gen=lambda i: k.rng.randint(0, max(0, raws.rowlen(tags[i]) - 2)))
    a, b = (lambda i: raws(tags[i], idx[i])), (lambda i: raws(tags[i], idx[i] + 1))
    k.req(k.forall(0, n, lambda i: And(idx[i] >= 0, idx[i] + 1 < raws.rowlen(tags[i]))))
    if k.mode == 'sym':
        k.pre.append(k.forall(0, n, lambda i: And(idx[i] >= 0, idx[i] + 1 < raws.rowlen(tags[i])), pat=lambda i: idx[i]))
        k.pre.append(k.forall(0, n, lambda i: And(a(i) >= 0, a(i) <= b(i), b(i) <= LMAX), pat=lambda i: idx[i]))
    else:
        k.req(k.forall(0, n, lambda i: And(a(i) >= 0, a(i) <= b(i), b(i) <= LMAX)))
    R = rowsum(k, 'off', n, lambda i: b(i) - a(i))
    k.req(R(n) <= LMAX)
    return n, tags, idx, a, b, R


@contract('UnionArray_flatten_length', prop='P09')
def _(k):
    n, tags, idx, a, b, R = flat(k)
    k.out_arr('total_length', 1)
    k.cell('total_length', R(n), running=lambda t: R(t))


@contract('UnionArray_flatten_combine', prop='P09')
def _(k):
    n, tags, idx, a, b, R = flat(k)
    k.out_arr('totags', R(n)); k.out_arr('toindex', R(n)); k.out_arr('tooffsets', n + 1)
    k.out('tooffsets', n + 1, val=lambda i: R(i))
    k.out('totags', dims=[(0, n), (0, lambda i: b(i) - a(i))], at=lambda i, j: R(i) + j, val=lambda i, j: tags[i])
    k.out('toindex', dims=[(0, n), (0, lambda i: b(i) - a(i))], at=lambda i, j: R(i) + j, val=lambda i, j: a(i) + j)
    k.expr(R, lambda i, j: R(i) + j)


@contract('UnionArray_nestedfill_tags_index', prop='P09')
def _(k):
    n = k.size('length'); tag = k.int('tag', lo=0, gen=(0, 3))
    g = []
    def cg(i):
        return k.rng.randint(0, 3)
    c = k.arr('fromcounts', n, lo=0, hi=LMAX + 1, gen=cg)
    def sg(i):
        if i == 0:
            g[:] = [0]
        v = g[0] + k.rng.randint(0, 2)
        g[0] = v + c[i]
        return v
    s = k.out_arr('tmpstarts', n, inout=True, lo=0, hi=LMAX + 1, gen=sg)
    # the slots filled for different rows do not overlap
    L = k.ghost_len('totags', lambda: max([0] + [s[i] + c[i] for i in range(n)]) + 1)
    k.req(k.forall(0, n, lambda i: s[i] + c[i] <= L, pat=lambda i: s[i]))
    if k.mode == 'sym':
        i, j = z3.Ints('ni nj')
        k.pre.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), s[i] + c[i] <= s[j]), patterns=[z3.MultiPattern(s[i], s[j])]))
    else:
        k.req(all(s[i] + c[i] <= s[j] for i in range(n) for j in range(i + 1, n)))
    K = rowsum(k, 'k', n, lambda i: c[i])
    k.req(K(n) <= cmax(k, 'toindex'))
    k.out_arr('totags', L); k.out_arr('toindex', L)
    k.out('totags', dims=[(0, n), (0, lambda i: c[i])], at=lambda i, j: s[i] + j, val=lambda i, j: tag)
    k.out('toindex', dims=[(0, n), (0, lambda i: c[i])], at=lambda i, j: s[i] + j, val=lambda i, j: K(i) + j)
    k.out('tmpstarts', n, val=lambda i: s[i] + c[i])
    k.expr(K, lambda i, j: K(i) + j)


@contract('UnionArray_project', prop='P09')
def _(k):
    n = k.size('length'); w = k.int('which', lo=0, hi=127, gen=(0, 2))
    t = k.arr('fromtags', n, gen=(0, 2)); f = k.arr('fromindex', n)
    C = k.count('cnt', lambda i: t[i] == w)
    k.out_arr('lenout', 1); k.out_arr('tocarry', C(n))
    k.cell('lenout', C(n), running=lambda t: C(t))
    k.out('tocarry', n, at=lambda i: C(i), when=lambda i: t[i] == w, val=lambda i: f[i])


@contract('UnionArray_regular_index', prop='P09')
def _(k):
    n = k.size('length'); m = k.size('size'); t = k.arr('fromtags', n, lo=0, hi=m)
    C = k.rec('seen', 0, lambda q, i, v: v + If(t[i] == q, 1, 0), params=1)
    k.lemma2('0<=seen<=t', lambda q, i: And(C(q, i) >= 0, C(q, i) <= i), pat=lambda q, i: C(q, i), plo=0, phi=m)
    k.req(n <= cmax(k, 'toindex'))
    k.out_arr('toindex', n); k.out_arr('current', m)
    k.out('current', m, val=lambda q: C(q, n), running=lambda t, q: C(q, t))
    k.out('toindex', n, val=lambda i: C(t[i], i))


@contract('UnionArray_regular_index_getsize', prop='P09')
def _(k):
    n = k.size('length'); t = k.arr('fromtags', n, gen=(-1, 4))
    R = k.rec('max', 0, lambda i, v: If(t[i] > v, t[i], v))
    k.lemma('0<=max<=127', lambda i: And(R(i) >= 0, R(i) <= 127), pat=lambda i: R(i), upto=n)
    k.out_arr('size', 1)
    k.cell('size', R(n) + 1, running=lambda t: R(t))


@contract('UnionArray_simplify', prop='P09')
def _(k):
    n = k.size('length'); L = k.ghost_len('innertags', lambda: k.rng.randint(1, 4))
    tw = k.int('towhich', lo=0, hi=127, gen=(0, 3)); iw = k.int('innerwhich', lo=0, hi=127, gen=(0, 1)); ow = k.int('outerwhich', lo=0, hi=127, gen=(0, 1))
    b = k.int('base', lo=0, hi=LMAX, gen=(0, 9))
    ot = k.arr('outertags', n, gen=(0, 1)); oi = k.arr('outerindex', n, lo=0, hi=L)
    it = k.arr('innertags', L, gen=(0, 1)); ii = k.arr('innerindex', L, lo=-LMAX, hi=LMAX)
    T = k.out_arr('totags', n, inout=True); X = k.out_arr('toindex', n, inout=True)
    hit = lambda i: And(ot[i] == ow, it[oi[i]] == iw)
    k.out('totags', n, val=lambda i: If(hit(i), tw, T[i]))
    k.out('toindex', n, val=lambda i: If(hit(i), ii[oi[i]] + b, X[i]))


@contract('UnionArray_simplify_one', prop='P09')
def _(k):
    n = k.size('length')
    tw = k.int('towhich', lo=0, hi=127, gen=(0, 3)); fw = k.int('fromwhich', lo=0, hi=127, gen=(0, 1)); b = k.int('base', lo=0, hi=LMAX, gen=(0, 9))
    t = k.arr('fromtags', n, gen=(0, 1)); f = k.arr('fromindex', n, lo=-LMAX, hi=LMAX)
    T = k.out_arr('totags', n, inout=True); X = k.out_arr('toindex', n, inout=True)
    k.out('totags', n, val=lambda i: If(t[i] == fw, tw, T[i]))
    k.out('toindex', n, val=lambda i: If(t[i] == fw, f[i] + b, X[i]))


@contract('UnionArray_validity', prop=['P09', 'P14'])
def _(k):
    n = k.size('length'); m = k.size('numcontents')
    t = k.arr('tags', n, gen=lambda i: k.rng.randint(0, m - 1) if m and k.rng.random() < .95 else k.rng.randint(-2, 4))
    x = k.arr('index', n, gen=lambda i: k.rng.randint(0, 3) if k.rng.random() < .95 else -1); l = k.arr('lencontents', m, gen=(2, 5))
    def bad(i):
        if k.symbolic:
            return Or(t[i] < 0, x[i] < 0, t[i] >= m, x[i] >= l[t[i]])
        return t[i] < 0 or x[i] < 0 or t[i] >= m or x[i] >= l[t[i]]
    k.fail(bad, ident=lambda i: i, att=KNONE, n=n)
