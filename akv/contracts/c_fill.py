"""Concatenation and type conversion of NumPy data."""
from ..registry import contract
from ..dsl import *


def pre(k, per=1, inper=1):
    n = k.size('length'); o = k.int('tooffset', lo=0, hi=LMAX, gen=(0, 4))
    f = k.arr('fromptr', n * inper)
    k.out_arr('toptr', o + n * per)
    k.keep('toptr', o)
    return n, o, f, k.ct('fromptr'), k.ct('toptr')


@contract('NumpyArray_fill', prop='P10')
def _(k):
    n, o, f, A, B_ = pre(k)
    k.out('toptr', n, at=lambda i: o + i, val=lambda i: cast(f[i], A, B_))


@contract('NumpyArray_fill_frombool', prop='P10')
def _(k):
    n, o, f, A, B_ = pre(k)
    one = (lambda x: (fconst(float(x), CT[B_][1]) if k.symbolic else float(x)) if CT[B_][0] == 'float' else x)
    k.out('toptr', n, at=lambda i: o + i, val=lambda i: If(f[i] != 0, one(1), one(0)))


@contract('NumpyArray_fill_tobool', prop='P10')
def _(k):
    n, o, f, A, B_ = pre(k)
    # negative numbers and NaN become false (kernel-specification.yml says so too) where NumPy has true:
    # recorded in known-findings.json; here either is accepted for those and the exact value required for all others
    nonneg = lambda i: fcmp('oge', CT[A][1], f[i], fconst(0.0, CT[A][1]) if k.symbolic else 0.0) if CT[A][0] == 'float' else f[i] >= 0
    k.out('toptr', n, at=lambda i: o + i, when=nonneg, val=lambda i: cast(f[i], A, 'bool'))


def tobool_strict(k):
    """what the property asks for; runs on the recorded inputs of the known finding"""
    n, o, f, A, B_ = pre(k)
    k.out('toptr', n, at=lambda i: o + i, val=lambda i: cast(f[i], A, 'bool'))


@contract('NumpyArray_fill_fromcomplex', prop='P10')
def _(k):
    n, o, f, A, B_ = pre(k, inper=2)
    k.out('toptr', n, at=lambda i: o + i, val=lambda i: cast(f[2 * i], A, B_))


@contract('NumpyArray_fill_tocomplex', prop='P10')
def _(k):
    n, o, f, A, B_ = pre(k, per=2)
    zero = (fconst(0.0, CT[B_][1]) if k.symbolic else 0.0) if CT[B_][0] == 'float' else 0
    k.out('toptr', n, at=lambda i: o + 2 * i, val=lambda i: cast(f[i], A, B_), tag='real')
    k.out('toptr', n, at=lambda i: o + 2 * i + 1, val=lambda i: zero, tag='imag')


@contract('NumpyArray_fill_scaled', prop='P10')
def _(k):
    n, o, f, A, B_ = pre(k)
    s = k.float('scale')
    k.out('toptr', n, at=lambda i: o + i, val=lambda i: cast(fop('fmul', 64, cast(f[i], A, 'double'), s), 'double', B_))
