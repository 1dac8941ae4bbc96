"""Bounded stand-in for the member functions of (Irregularly)PartitionedArray that handle the partitions themselves (std::vector of
shared_ptr, virtual calls: outside the verified subset): units/partitionrun.cpp tries every small array. Never counted as proved."""
import os, re, shutil, subprocess, sys, tempfile, time
from . import build, machine

FUNCS = 'PartitionedArray::getitem_at, getitem_range, getitem_range_nowrap, partition; IrregularlyPartitionedArray::repartition'


def make(d):
    ps, objs = [], []
    for i, s in enumerate([build.REPO + '/src/libawkward/Slice.cpp', build.REPO + '/src/libawkward/util.cpp', build.UNITS + '/partitionrun.cpp']):
        objs.append(f'{d}/{i}.o')
        ps.append(subprocess.Popen([build.GXX] + machine.FLAGS + ['-c', s, '-o', objs[-1]], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    errs = [p.communicate()[1] for p in ps]
    for p, e in zip(ps, errs):
        if p.returncode:
            raise RuntimeError(e[-1500:])
    r = subprocess.run([build.GXX, '-fsanitize=address', '-no-pie'] + objs + ['-o', d + '/run', '-Wl,--unresolved-symbols=ignore-all'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-1500:])
    return d + '/run'


def explore(most, longest, procs=8, limit=600):
    d = tempfile.mkdtemp(prefix='akvpart')
    out, end = dict(arrays=0, operations=0, failing=None, why=None), time.time() + limit
    try:
        try:
            exe = make(d)
        except (RuntimeError, OSError) as e:
            return dict(out, why='not built: ' + str(e)[-600:])
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
        ps = [subprocess.Popen([exe] + [str(x) for x in (most, longest, i, procs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env) for i in range(procs)]
        for p in ps:
            try:
                t = p.communicate(timeout=max(1, end - time.time()))[0]
            except subprocess.TimeoutExpired:
                p.kill()
                t = p.communicate()[0]
            m = re.search(r'DONE (\d+) arrays, (\d+) operations', t)
            if m:
                out['arrays'] += int(m[1])
                out['operations'] += int(m[2])
            f = re.search(r'FAILED (.*?): (.*)', t)
            if f and re.search(r'SEGV on unknown address 0x0+ \(pc 0x0+ ', t):
                out['why'] = 'calls a function outside the sources linked'
            elif f and (out['failing'] is None or len(f[2]) < len(out['failing']['case'])):
                out['failing'] = dict(case=f[2], most=most, longest=longest)
                a = re.search(r'SUMMARY: (AddressSanitizer: .*)', t)
                out['why'] = f'{f[1]} ({f[2]})' if not a else f'{a[1]} ({f[2]})'
            elif not m and not f and out['why'] is None:
                out['why'] = 'gave up: ' + t[-200:]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def extra(rep):
    from . import check as c
    most, longest = (4, 3) if c.TIER == 'quick' else (5, 3)
    r = explore(most, longest)
    if r['failing'] is not None:
        rep(dict(function='IrregularlyPartitionedArray', kind='partition', family='partitionrun', file='src/libawkward/partition/IrregularlyPartitionedArray.cpp', status='bounded', failed=[], log=r['why']),
            inputs=r['failing'], why=r['why'])
    return dict(coverage=dict(bounded_stand_ins={FUNCS: dict(
        why='vectors of shared pointers and virtual calls are outside the verified subset', arrays=r['arrays'], operations=r['operations'],
        bound=f'all arrays of at most {most} partitions of at most {longest} elements each; all positions, all starts and stops, 11 steps, all repartitions into at most 3; '
              'the partitions are stand-ins (lists of numbers), range normalisation is the one of P03', note=r['why'])}))


if __name__ == '__main__':
    print(explore(int(sys.argv[1]), int(sys.argv[2])))
