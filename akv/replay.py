"""Run kernels of /repo, compiled by g++, on concrete inputs against the contract.

Every call runs in a forked child; every buffer ends (or starts) at an inaccessible
page, so an access outside a buffer kills the child; signed overflow traps; a call
that uses more than 5 s of CPU is reported as not terminating.
"""
import ctypes, json, math, mmap, os, pickle, random, shutil, signal, struct, sys, tempfile, time, traceback
from . import build, dsl, registry, verify
from .dsl import CT

CTY = {'bool': ctypes.c_uint8, 'int8_t': ctypes.c_int8, 'uint8_t': ctypes.c_uint8, 'int16_t': ctypes.c_int16, 'uint16_t': ctypes.c_uint16,
       'int32_t': ctypes.c_int32, 'uint32_t': ctypes.c_uint32, 'int64_t': ctypes.c_int64, 'uint64_t': ctypes.c_uint64, 'float': ctypes.c_float,
       'double': ctypes.c_double, 'char': ctypes.c_int8}
SLOT = 1 << 16
PAGE = 4096


class Err(ctypes.Structure):
    _fields_ = [('str', ctypes.c_void_p), ('filename', ctypes.c_void_p), ('identity', ctypes.c_int64), ('attempt', ctypes.c_int64), ('pass_through', ctypes.c_bool)]


class Pool:
    """slots of SLOT bytes between inaccessible pages"""

    def __init__(self, n):
        libc = ctypes.CDLL(None, use_errno=True)
        libc.mmap.restype = ctypes.c_void_p
        libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        gap = 1 << 20
        size = n * (SLOT + gap) + gap
        base = libc.mmap(None, size, 0, 0x22, -1, 0)
        self.slots = []
        for i in range(n):
            a = base + gap + i * (SLOT + gap)
            if libc.mprotect(a, SLOT, 3):
                raise OSError('mprotect')
            self.slots.append(a)
        self.n = 0

    def reset(self):
        self.n = 0

    def take(self, nbytes, end):
        if nbytes > SLOT:
            raise dsl.Reject('too big')
        a = self.slots[self.n]
        self.n += 1
        return a + SLOT - nbytes if end else a


def place(pool, ct, vals, end):
    c = CTY[ct]
    sz = ctypes.sizeof(c)
    a = pool.take(len(vals) * sz, end)
    buf = (c * len(vals)).from_address(a)
    for i, v in enumerate(vals):
        buf[i] = v
    return buf, a


def call(lib, name, sig, k, pool, end):
    """-> (error or None, buffers after, return value)"""
    pool.reset()
    args, bufs, argt = [], {}, []
    for a in sig['args']:
        v = k.inputs[a['name']]
        if a['ptr'] == 2:
            rows = [place(pool, k.arrs[a['name']].ct, r, end) for r in v]
            tab = (ctypes.c_void_p * len(rows)).from_address(pool.take(8 * len(rows), end))
            for i, r in enumerate(rows):
                tab[i] = r[1]
            bufs[a['name']] = [r[0] for r in rows]
            args.append(ctypes.c_void_p(ctypes.addressof(tab)) if rows else ctypes.c_void_p(pool.take(0, end)))
            argt.append(ctypes.c_void_p)
        elif a['ptr']:
            b, addr = place(pool, k.arrs[a['name']].ct, v, end)
            bufs[a['name']] = b
            args.append(ctypes.c_void_p(addr))
            argt.append(ctypes.c_void_p)
        else:
            t = ctypes.c_bool if a['type'] == 'bool' else CTY[a['type']]
            args.append(t(v))
            argt.append(t)
    f = lib[name]
    rt = sig.get('ret')
    f.argtypes = argt
    f.restype = Err if rt is None else None if rt == 'void' else ctypes.c_bool if rt == 'bool' else CTY[rt]
    signal.setitimer(signal.ITIMER_VIRTUAL, 5.0)
    r = f(*args)
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    err, ret = None, None
    if rt is None:
        if r.str:
            err = (r.identity, r.attempt)
    else:
        ret = r
    out = {n: ([list(x) for x in b] if isinstance(b, list) else list(b)) for n, b in bufs.items()}
    return err, out, ret


def judge(k, err, mem, ret, only):
    for n, a in k.arrs.items():
        if n not in k.out_regions and n in mem:
            x, y = mem[n], k.inputs[n]
            if len(x) != len(y) or not all(dsl.eq(p, q) if not isinstance(p, list) else p == q for p, q in zip(x, y)):
                return f'memory: the input buffer {n} was modified: {y} became {x}'
    if only == 'safety':
        return None
    return verify.check_result(k, err, mem, ret)


SIGNAME = {signal.SIGSEGV: 'memory: access outside the buffers (SIGSEGV)', signal.SIGBUS: 'memory: access outside the buffers (SIGBUS)',
           signal.SIGILL: 'overflow: undefined arithmetic (trap)', signal.SIGFPE: 'division: SIGFPE', signal.SIGVTALRM: 'termination: no result after 5 s of CPU time',
           signal.SIGTRAP: 'overflow: undefined arithmetic (trap)', signal.SIGABRT: 'abort'}


def compile_so(name, family, wrap_ok, tmp):
    srcs = build.source_of(name, family)
    if not srcs:
        raise build.BuildError('no source defines ' + name)
    out = tmp + '/k.so'
    extra = ['-fwrapv'] if wrap_ok else ['-fsanitize=signed-integer-overflow,integer-divide-by-zero', '-fsanitize-undefined-trap-on-error']
    utils = build.KDIR + '/kernel-utils.cpp'
    if build.is_unit(srcs[0]):
        d = os.environ.get('AKV_SO')
        if d:
            # shared by the functions of one check
            out = f'{d}/{os.path.basename(srcs[0])[:-4]}-{int(wrap_ok)}.so'
            import fcntl
            with open(out + '.lock', 'w') as f:
                fcntl.flock(f, fcntl.LOCK_EX)
                if not os.path.exists(out):
                    build.to_so(srcs[:1], out + '.tmp', extra)
                    os.rename(out + '.tmp', out)
            return out
        return build.to_so(srcs[:1], out, extra)
    srcs = [srcs[0]] + ([utils] if os.path.exists(utils) and srcs[0] != utils else [])
    try:
        build.to_so(srcs, out, extra + ['-Wl,-z,defs'])
    except build.BuildError:
        # needs another kernel source
        ll = build.raw_ir(srcs[0])
        more = set()
        for n in build.unresolved(ll):
            more |= build.definers().get(build.plain(n), set())
        more = sorted(f for f in more if f not in srcs)[:6]
        build.to_so(srcs + more, out, extra)
    return out


def run(name, contract, given=None, seed=1, seconds=20.0, count=10 ** 9, only=None, sizes=(2, 3, 4, 6, 9), family=None):
    """given: list of inputs to try first. -> dict(tested, failing, why, signal)"""
    registry.load()
    sig = verify.SIGS[name]
    family = family or sig['family']
    rng = random.Random(seed)
    wrap_ok = False
    g = verify.gen_input(sig, contract, random.Random(5))
    if g is not None:
        wrap_ok = bool(g.flags.get('wrap_ok'))
    tmp = tempfile.mkdtemp(prefix='akvso')
    try:
        so = compile_so(name, family, wrap_ok, tmp)
        shm = mmap.mmap(-1, 1 << 22)
        rd, wr = os.pipe()
        t0 = time.time()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                for s in SIGNAME:
                    signal.signal(s, signal.SIG_DFL)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                os.chdir(tmp)
                # lazily: symbols that the functions called do not need may be missing
                libc = ctypes.CDLL(None)
                libc.dlopen.restype, libc.dlopen.argtypes = ctypes.c_void_p, [ctypes.c_char_p, ctypes.c_int]
                h = libc.dlopen(so.encode(), 1)
                lib = ctypes.CDLL(so, handle=h) if h else ctypes.CDLL(so)
                pool = Pool(48)
                tested, distinct = 0, set()
                res = None
                todo = list(given or [])
                while res is None:
                    if todo:
                        inputs = todo.pop(0)
                    else:
                        if time.time() - t0 > seconds or tested >= count:
                            break
                        g = verify.gen_input(sig, contract, rng, size=rng.choice(sizes), tries=20)
                        if g is None:
                            tested += 1
                            continue
                        inputs = g.inputs
                    try:
                        k = verify.con_k(sig, contract, inputs)
                    except dsl.Reject:
                        continue
                    for end in (True, False):
                        blob = pickle.dumps((tested, len(distinct), inputs))
                        if len(blob) < (1 << 22) - 8:
                            shm.seek(0)
                            shm.write(struct.pack('<q', len(blob)) + blob)
                        try:
                            err, mem, ret = call(lib, name, sig, k, pool, end)
                            d = judge(k, err, mem, ret, only)
                        except dsl.Reject:
                            break
                        if d:
                            res = (inputs, d, err, {n: mem[n] for n in k.out_regions if n in mem}, ret)
                            break
                    tested += 1
                    if len(distinct) < 200000:
                        distinct.add(hash(repr(inputs)))
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump((tested, len(distinct), res), f)
                os._exit(0)
            except BaseException:
                try:
                    with os.fdopen(wr, 'wb') as f:
                        pickle.dump(('exc', traceback.format_exc(), None), f)
                finally:
                    os._exit(3)
        os.close(wr)
        data = b''
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            shm.seek(0)
            n, = struct.unpack('<q', shm.read(8))
            sg = os.WTERMSIG(st)
            if n == 0 or sg not in SIGNAME:
                return dict(tested=0, distinct=0, failing=None, why=f'child ended by signal {sg}', error=True)
            tested, dist, inputs = pickle.loads(shm.read(n))
            return dict(tested=tested + 1, distinct=dist, failing=inputs, why=SIGNAME[sg], observed=f'signal {sg}')
        if not data:
            return dict(tested=0, distinct=0, failing=None, why='child gave no result', error=True)
        tested, dist, res = pickle.loads(data)
        if tested == 'exc':
            return dict(tested=0, distinct=0, failing=None, why=dist, error=True)
        if res is None:
            return dict(tested=tested, distinct=dist, failing=None, why=None)
        return dict(tested=tested, distinct=dist, failing=res[0], why=res[1], observed=dict(error=res[2], buffers=res[3], returned=res[4]))
    finally:
        shutil.rmtree(tmp)


def main():
    f = json.load(open(sys.argv[1]))
    registry.load()
    if f.get('kind') == 'kernel' and f.get('inputs') is not None:
        e = registry.CONTRACTS[f['family']]
        r = run(f['function'], e.f, given=[unjson(f['inputs'])], count=1, only=f.get('only'))
        print(json.dumps({a: b for a, b in r.items()}, indent=1, default=str))
        sys.exit(1 if r['failing'] is not None else 0)
    if f.get('kind') == 'dispatch':
        from . import dispatch
        sys.exit(dispatch.replay_main(f))
    if f.get('kind') == 'machine':
        from . import machine
        i = f['inputs']
        r = machine.explore(i['mode'], i['seed'], 1, i['count'], exact=True)
        print(json.dumps(r, indent=1))
        sys.exit(1 if r['failing'] is not None else 0)
    if f.get('kind') == 'partition':
        from . import partition
        r = partition.explore(f['inputs']['most'], f['inputs']['longest'])
        print(json.dumps(r, indent=1))
        sys.exit(1 if r['failing'] is not None else 0)
    print(json.dumps(f, indent=1))


def unjson(x):
    if isinstance(x, dict):
        return {a: unjson(b) for a, b in x.items()}
    if isinstance(x, list):
        return [unjson(a) for a in x]
    return x


if __name__ == '__main__':
    main()
