"""IrregularlyPartitionedArray (P27), entered through units/partition.cpp."""
from ..registry import contract, unit
from ..dsl import *
from .c_forth import arg

S = [arg('partitions', 'int64_t', 1), arg('stops', 'int64_t', 1, True), arg('n', 'int64_t')]
unit('unit_partition_at', S + [arg('at', 'int64_t'), arg('partitionid', 'int64_t', 1), arg('index', 'int64_t', 1)])
unit('unit_partition_bounds', S + [arg('partitionid', 'int64_t'), arg('out', 'int64_t', 1)])
unit('unit_partition_length', S + [arg('out', 'int64_t', 1)])


def array(k):
    """n partitions that end at stops[0] <= stops[1] <= ...; where partition p starts"""
    n = k.size('n')
    k.req(n >= 1)
    unit_, last = (k.rng.choice([1, 1, (1 << 31) + 1]), [0]) if k.mode == 'gen' else (1, [0])

    def gen(i):
        last[0] += k.rng.randint(0, 3) * unit_
        return last[0]
    s = k.offsets('stops', n, gen=gen)
    k.out_arr('partitions', n, inout=True)
    k.keep('partitions', n)
    return n, s, lambda p: ite(p == 0, lambda: 0, lambda: s[p - 1])


@contract('unit_partition_at', prop='P27')
def _(k):
    n, s, start = array(k)
    at = k.int('at', gen=lambda: k.rng.choice([k.rng.randint(-3, s[n - 1] + 3), s[k.rng.randint(0, n - 1)] + k.rng.randint(-1, 1)]))
    k.out_arr('partitionid', 1)
    k.out_arr('index', 1)
    k.expr(lambda t: start(t))
    k.inv(lambda mem, t: Implies(And(t >= 0, t <= n), start(t) <= at), 'not in an earlier partition')

    def located(st):
        p, i = st.mem('partitionid', 0), st.mem('index', 0)
        inside = And(p >= 0, p < n, ite(And(p >= 0, p < n), lambda: And(start(p) <= at, at < s[p], i == at - start(p)), lambda: False))
        return If(at < 0, And(p == -1, i == -1), If(at >= s[n - 1], And(p == n, i == 0), inside))
    k.post(located, 'the partition that has the position')


@contract('unit_partition_bounds', prop='P27')
def _(k):
    n, s, start = array(k)
    p = k.int('partitionid', lo=0, hi=LMAX, gen=lambda: k.rng.randint(0, n - 1))
    k.req(p < n)
    k.out_arr('out', 2)
    k.out('out', None, at=0, val=lambda: start(p))
    k.out('out', None, at=1, val=lambda: s[p])


@contract('unit_partition_length', prop='P27')
def _(k):
    n, s, start = array(k)
    k.out_arr('out', 2)
    k.out('out', None, at=0, val=lambda: n)
    k.out('out', None, at=1, val=lambda: s[n - 1])
