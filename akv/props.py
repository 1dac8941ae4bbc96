"""property id -> what decides it"""
from . import registry

PROPS = {'P01': dict(only='safety')}
for _i in range(2, 30):
    PROPS[f'P{_i:02d}'] = {}


def _dispatch(rep):
    from . import dispatch
    return dispatch.check(rep)


PROPS['P18'] = dict(extra=_dispatch)


UNIT = ['member functions are entered through akv/units/*.cpp: an object with arbitrary field values satisfying the stated invariant, one call, the fields afterwards',
        'std::shared_ptr is replaced by a pointer that does not count references (ownership and deallocation are not verified)',
        'memory allocation succeeds and no exception is thrown', 'byte order swaps of floating-point values are taken on their bits, and bits and values correspond one to one']
for _i in ('P24', 'P25', 'P26', 'P27'):
    PROPS[_i] = dict(assumptions=UNIT)
PROPS['P25'] = PROPS['P26'] = dict(assumptions=UNIT + ['the growth factor does not take a reservation of at most 2^40 elements beyond 2^56'])


def _machine(mode):
    def extra(rep):
        from . import machine
        return machine.check(mode)(rep)
    return extra


PROPS['P24'] = dict(PROPS['P24'], extra=_machine('r'))
PROPS['P25'] = dict(PROPS['P25'], extra=_machine('w'))


def _partition(rep):
    from . import partition
    return partition.extra(rep)


PROPS['P19'] = dict(PROPS.get('P19', {}), assumptions=UNIT[:2] + ['an error (handle_error of a failure, or a throw) ends the call; the message is dropped', 'memory allocation succeeds'])
PROPS['P27'] = dict(extra=_partition, assumptions=UNIT[:2] + ['the stops handed to the constructor are where the partitions end (they do not decrease and are not negative)',
                                                            'a std::vector is the pointers to its first element, to the end of its elements and to the end of its memory'])


SORT = ['std::sort and std::stable_sort are used through an assumed contract (rearranges the range in order of the comparison; stable_sort keeps equivalent elements in order); '
        'that the comparison handed to them is the stated order, and that it only reads inside the buffers, is an obligation',
        'operator new succeeds; the comparison is a strict weak order (integers, and floats without NaN)']
for _i in ('P01', 'P06', 'P15'):
    PROPS[_i] = dict(PROPS[_i], assumptions=SORT)


def families(pid):
    registry.load()
    if pid == 'P01':
        return sorted(f for f in registry.CONTRACTS if not f.startswith('unit_'))
    return sorted(set(registry.PROPS.get(pid, [])))
