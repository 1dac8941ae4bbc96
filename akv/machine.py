"""Bounded stand-in for ForthMachineOf<T, I>::internal_run (an interpreter loop over std::vector, std::map and virtual calls, outside the
verified subset): units/forthrun.cpp runs random programs on the real machine and compares. Never counted as proved."""
import glob, os, re, shutil, subprocess, sys, tempfile, time
from . import build

FLAGS = ['-std=c++11', '-O1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-DVERSION_INFO="akv"', f'-I{build.REPO}/include', f'-I{build.REPO}/src', f'-I{build.REPO}/rapidjson/include']


def make(d):
    """the driver, linked with the machine's sources only (what these do not call at run time is left unresolved)"""
    srcs = sorted(glob.glob(build.REPO + '/src/libawkward/forth/*.cpp')) + [build.REPO + '/src/libawkward/util.cpp', build.UNITS + '/forthrun.cpp']
    ps, objs = [], []
    for i, s in enumerate(srcs):
        objs.append(f'{d}/{i}.o')
        ps.append(subprocess.Popen([build.GXX] + FLAGS + ['-c', s, '-o', objs[-1]], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    errs = [p.communicate()[1] for p in ps]
    for p, e in zip(ps, errs):
        if p.returncode:
            raise RuntimeError(e[-1500:])
    r = subprocess.run([build.GXX, '-fsanitize=address', '-no-pie'] + objs + ['-o', d + '/forthrun', '-Wl,--unresolved-symbols=ignore-all'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-1500:])
    return d + '/forthrun'


def run(exe, seed, count, mode):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0')
    return subprocess.Popen([exe, str(seed), str(count), mode], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)


def explore(mode, seed, procs, count, limit=200, exact=False):
    d = tempfile.mkdtemp(prefix='akvforth')
    try:
        try:
            exe = make(d)
        except (RuntimeError, OSError) as e:
            return dict(programs=0, instructions=0, failing=None, why='not built: ' + str(e)[-600:])
        ps = [(s, run(exe, s, count, mode)) for s in ([seed] if exact else [seed * 1000 + i for i in range(procs)])]
        out, end = dict(programs=0, instructions=0, failing=None, why=None), time.time() + limit
        for s, p in ps:
            try:
                t = p.communicate(timeout=max(1, end - time.time()))[0]
            except subprocess.TimeoutExpired:
                p.kill()
                t = p.communicate()[0]
            m = re.search(r'DONE (\d+) programs, (\d+) instructions', t)
            if m:
                out['programs'] += int(m[1])
                out['instructions'] += int(m[2])
            f = re.search(r'FAILED (.*?): (.*)', t)
            if f and re.search(r'SEGV on unknown address 0x0+ \(pc 0x0+ ', t):
                out['why'] = 'calls a function outside the sources linked'
            elif f and out['failing'] is None:
                out['failing'] = dict(program=f[2], mode=mode, seed=s, count=count)
                a = re.search(r'SUMMARY: (AddressSanitizer: .*)', t)
                out['why'] = f'{f[1]} differs from what the instructions mean' if not a else a[1]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(mode):
    def extra(rep):
        from . import check as c
        n = 20000 if c.TIER == 'quick' else 400000
        r = explore(mode, c.SEED, 4, n)
        if r['failing'] is not None:
            rep(dict(function='ForthMachineOf_internal_run', kind='machine', family='forthrun', file='src/libawkward/forth/ForthMachine.cpp', status='bounded', failed=[], log=r['why']),
                inputs=r['failing'], why=r['why'])
        what = 'read, seek and skip' if mode == 'r' else 'write, rewind and dup'
        return dict(coverage=dict(bounded_stand_ins={'ForthMachineOf<T, I>::internal_run': dict(
            why='an interpreter loop over std::vector, std::map and virtual calls is outside the verified subset', programs=r['programs'], instructions=r['instructions'],
            bound=f'{r["programs"]} random programs of at most {8 if mode == "r" else 20} {what} instructions, inputs of at most 59 bytes, a stack of 24', note=r['why'])}))
    return extra


if __name__ == '__main__':
    print(explore(sys.argv[1], int(sys.argv[2]), 4, int(sys.argv[3])))
