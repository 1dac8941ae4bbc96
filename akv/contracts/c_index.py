"""Element access of index buffers."""
from ..registry import contract
from ..dsl import *


@contract('Index_getitem_at_nowrap', prop='P19')
def _(k):
    n = k.ghost_len('ptr', lambda: k.rng.randint(1, 5))
    p = k.arr('ptr', n); a = k.int('at', lo=0, hi=LMAX, gen=lambda: k.rng.randint(0, n - 1))
    k.req(a < n)
    k.ret(p[a])


@contract('Index_setitem_at_nowrap', prop='P19')
def _(k):
    n = k.ghost_len('ptr', lambda: k.rng.randint(1, 5))
    p = k.out_arr('ptr', n, inout=True); a = k.int('at', lo=0, hi=LMAX, gen=lambda: k.rng.randint(0, n - 1)); v = k.int('value')
    k.req(a < n)
    k.out('ptr', n, val=lambda i: If(i == a, v, p[i]))
