"""Reducers: every output bin holds the fold of exactly the elements whose parent is that bin."""
from ..registry import contract
from ..dsl import *


def common(k, per=1, outper=1):
    n = k.size('lenparents'); m = k.size('outlength')
    p = k.arr('parents', n, lo=0, hi=m)
    f = k.arr('fromptr', n * per) if 'fromptr' in k.types else None
    k.out_arr('toptr', m * outper)
    return n, m, p, f


def isf(ct):
    return CT[ct][0] == 'float'


def fsortname(ct):
    return 'f%d' % CT[ct][1] if isf(ct) else 'int'


def const(k, ct, x):
    if isf(ct):
        return fconst(float(x), CT[ct][1]) if k.symbolic else float(x)
    return x


def nonzero(k, f, i):
    ct = f.ct
    if isf(ct):
        return fcmp('une', CT[ct][1], f[i], const(k, ct, 0))
    return f[i] != 0


def gt(k, ct, a, b):
    return fcmp('ogt', CT[ct][1], a, b) if isf(ct) else a > b


def same(k, ct, a, b):
    return fcmp('oeq', CT[ct][1], a, b) if isf(ct) else a == b


def fold(k, name, n, m, p, init, step, sort='int', running=True):
    """R(q, t): fold of the elements before t whose parent is q"""
    R = k.rec(name, init, lambda q, i, v: If(p[i] == q, step(i, v), v) if k.symbolic else (step(i, v) if p[i] == q else v), params=1, sort=sort)
    return R


@contract('reduce_count_64', prop='P05')
def _(k):
    n, m, p, f = common(k)
    R = fold(k, 'count', n, m, p, 0, lambda i, v: v + 1)
    k.lemma2('0<=count<=t', lambda q, t: And(R(q, t) >= 0, R(q, t) <= t), pat=lambda q, t: R(q, t), plo=0, phi=m)
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


@contract('reduce_countnonzero', prop='P05')
def _(k):
    n, m, p, f = common(k)
    R = fold(k, 'count', n, m, p, 0, lambda i, v: v + If(nonzero(k, f, i), 1, 0))
    k.lemma2('0<=count<=t', lambda q, t: And(R(q, t) >= 0, R(q, t) <= t), pat=lambda q, t: R(q, t), plo=0, phi=m)
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


def cnz(k, f, i):
    return Or(nonzero(k, f, 2 * i), nonzero(k, f, 2 * i + 1))


@contract('reduce_countnonzero_complex', prop='P05')
def _(k):
    n, m, p, f = common(k, per=2)
    R = fold(k, 'count', n, m, p, 0, lambda i, v: v + If(cnz(k, f, i), 1, 0))
    k.lemma2('0<=count<=t', lambda q, t: And(R(q, t) >= 0, R(q, t) <= t), pat=lambda q, t: R(q, t), plo=0, phi=m)
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


def addop(ct, a, b):
    return fop('fadd', CT[ct][1], a, b) if isf(ct) else wrap(a + b, ct)


def mulop(k, ct, a, b):
    return fop('fmul', CT[ct][1], a, b) if isf(ct) else wrap(mul(a, b), ct)


@contract('reduce_sum', prop='P05')
def _(k):
    n, m, p, f = common(k)
    O, Iy = k.ct('toptr'), k.ct('fromptr')
    k.flags['wrap_ok'] = True
    R = fold(k, 'sum', n, m, p, const(k, O, 0), lambda i, v: addop(O, v, cast(f[i], Iy, O)), sort=fsortname(O))
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


@contract('reduce_prod', prop='P05')
def _(k):
    n, m, p, f = common(k)
    O, Iy = k.ct('toptr'), k.ct('fromptr')
    k.flags['wrap_ok'] = True
    R = fold(k, 'prod', n, m, p, const(k, O, 1), lambda i, v: mulop(k, O, v, cast(f[i], Iy, O)), sort=fsortname(O))
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


@contract('reduce_sum_int32_bool_64', 'reduce_sum_int64_bool_64', prop='P05')
def _(k):
    n, m, p, f = common(k)
    k.flags['wrap_ok'] = True
    O = k.ct('toptr')
    R = fold(k, 'sum', n, m, p, 0, lambda i, v: wrap(v + If(f[i] != 0, 1, 0), O))
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


@contract('reduce_prod_int32_bool_64', 'reduce_prod_int64_bool_64', prop='P05')
def _(k):
    n, m, p, f = common(k)
    R = fold(k, 'prod', n, m, p, 1, lambda i, v: If(f[i] != 0, v, 0))
    k.lemma2('0<=prod<=1', lambda q, t: And(R(q, t) >= 0, R(q, t) <= 1), pat=lambda q, t: R(q, t), plo=0, phi=m)
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


@contract('reduce_sum_bool', prop='P05')
def _(k):
    n, m, p, f = common(k)
    R = fold(k, 'any', n, m, p, 0, lambda i, v: If(nonzero(k, f, i), 1, v))
    k.lemma2('0<=any<=1', lambda q, t: And(R(q, t) >= 0, R(q, t) <= 1), pat=lambda q, t: R(q, t), plo=0, phi=m)
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


@contract('reduce_sum_bool_complex', prop='P05')
def _(k):
    n, m, p, f = common(k, per=2)
    R = fold(k, 'any', n, m, p, 0, lambda i, v: If(cnz(k, f, i), 1, v))
    k.lemma2('0<=any<=1', lambda q, t: And(R(q, t) >= 0, R(q, t) <= 1), pat=lambda q, t: R(q, t), plo=0, phi=m)
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


@contract('reduce_prod_bool', prop='P05')
def _(k):
    n, m, p, f = common(k)
    R = fold(k, 'all', n, m, p, 1, lambda i, v: If(nonzero(k, f, i), v, 0))
    k.lemma2('0<=all<=1', lambda q, t: And(R(q, t) >= 0, R(q, t) <= 1), pat=lambda q, t: R(q, t), plo=0, phi=m)
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


@contract('reduce_prod_bool_complex', prop='P05')
def _(k):
    n, m, p, f = common(k, per=2)
    R = fold(k, 'all', n, m, p, 1, lambda i, v: If(cnz(k, f, i), v, 0))
    k.lemma2('0<=all<=1', lambda q, t: And(R(q, t) >= 0, R(q, t) <= 1), pat=lambda q, t: R(q, t), plo=0, phi=m)
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


def minmax(mx):
    def c(k):
        n, m, p, f = common(k)
        O = k.ct('toptr')
        ident = k.float('identity') if isf(O) else k.int('identity')
        better = (lambda a, b: gt(k, O, a, b)) if mx else (lambda a, b: gt(k, O, b, a))
        R = fold(k, 'best', n, m, p, ident, lambda i, v: If(better(f[i], v), f[i], v), sort=fsortname(O))
        k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))
    return c


contract('reduce_max', prop='P05')(minmax(True))
contract('reduce_min', prop='P05')(minmax(False))


def pair(k, m, R0, R1, n):
    k.out('toptr', m, at=lambda q: 2 * q, val=lambda q: R0(q, n), running=lambda t, q: R0(q, t), tag='real')
    k.out('toptr', m, at=lambda q: 2 * q + 1, val=lambda q: R1(q, n), running=lambda t, q: R1(q, t), tag='imag')


@contract('reduce_sum_complex', prop='P05')
def _(k):
    n, m, p, f = common(k, per=2, outper=2)
    O = k.ct('toptr')
    R0 = fold(k, 're', n, m, p, const(k, O, 0), lambda i, v: addop(O, v, f[2 * i]), sort=fsortname(O))
    R1 = fold(k, 'im', n, m, p, const(k, O, 0), lambda i, v: addop(O, v, f[2 * i + 1]), sort=fsortname(O))
    pair(k, m, R0, R1, n)


def cminmax(mx):
    def c(k):
        n, m, p, f = common(k, per=2, outper=2)
        O = k.ct('toptr')
        ident = k.float('identity')
        g = (lambda a, b: gt(k, O, a, b)) if mx else (lambda a, b: gt(k, O, b, a))
        better = lambda i, x, y: Or(g(f[2 * i], x), And(same(k, O, f[2 * i], x), g(f[2 * i + 1], y)))
        R = {}
        R[0] = k.rec('re', ident, lambda q, i, v: If(And(p[i] == q, better(i, v, R[1](q, i))), f[2 * i], v), params=1, sort=fsortname(O))
        R[1] = k.rec('im', const(k, O, 0), lambda q, i, v: If(And(p[i] == q, better(i, R[0](q, i), v)), f[2 * i + 1], v), params=1, sort=fsortname(O))
        pair(k, m, R[0], R[1], n)
    return c


contract('reduce_max_complex', prop='P05')(cminmax(True))
contract('reduce_min_complex', prop='P05')(cminmax(False))


def argbest(mx, boolean=False, cplx=False):
    def c(k):
        n, m, p, f = common(k, per=2 if cplx else 1)
        ct = k.ct('fromptr')
        g = (lambda a, b: gt(k, ct, a, b)) if mx else (lambda a, b: gt(k, ct, b, a))
        if cplx:
            better = lambda i, j: Or(g(f[2 * i], f[2 * j]), And(same(k, ct, f[2 * i], f[2 * j]), g(f[2 * i + 1], f[2 * j + 1])))
        else:
            better = lambda i, j: g(f[i], f[j])
        step = lambda i, v: If(Or(v == -1, better(i, v)), i, v) if k.symbolic else (i if v == -1 or better(i, v) else v)
        R = fold(k, 'arg', n, m, p, -1, step)
        k.lemma2('-1<=arg<t', lambda q, t: And(R(q, t) >= -1, R(q, t) < If(t > 0, t, 1), Implies(t == 0, R(q, t) == -1)), pat=lambda q, t: R(q, t), plo=0, phi=m)
        k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))
    return c


contract('reduce_argmax', prop='P05')(argbest(True))
contract('reduce_argmin', prop='P05')(argbest(False))
contract('reduce_argmax_bool_64', prop='P05')(argbest(True, True))
contract('reduce_argmin_bool_64', prop='P05')(argbest(False, True))
contract('reduce_argmax_complex', prop='P05')(argbest(True, cplx=True))
contract('reduce_argmin_complex', prop='P05')(argbest(False, cplx=True))
