"""Kernel dispatch (src/libawkward/kernel-dispatch.cpp): every entry point given the CPU backend
forwards to its kernel.  The contract of each entry point (which kernel, which parameter in which
place) is in dispatch.json; the functions are executed symbolically over their LLVM IR, one path at
a time, and every obligation is discharged by z3."""
import json, os, random, re, subprocess, sys, time, ctypes, tempfile, shutil
import z3
from . import build, ir
from .ir import Unsupported

SRC = '/src/libawkward/kernel-dispatch.cpp'
HERE = os.path.dirname(os.path.abspath(__file__))
CPU = 0                      # kernel::lib::cpu
Ptr = z3.DeclareSort('Ptr')
Flt = z3.DeclareSort('Flt')
Obj = z3.DeclareSort('Obj')  # an Error returned by a kernel; a vector parameter
_part = z3.Function('part', Obj, z3.IntSort(), Flt)


def part(v, off):
    """the float at a byte offset of a vector parameter"""
    return _part(v, z3.IntVal(off))


PASSES = 'always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify)'


def inc():
    return ['-I' + build.REPO + '/rapidjson/include', '-I/opt/vp/cmake/include']


def module():
    ll = build.raw_ir(build.REPO + SRC, inc())
    return ir.Module(build.run([build.OPT, '-S', '-passes=' + PASSES, '-'], inp=ll))


class P:
    """pointer into local (or result) memory object a; env['#mem'][a] is {byte offset: value}"""
    def __init__(self, a, off):
        self.a, self.off = a, off


def sort_of(t):
    if t.k == 'int':
        return z3.BitVecSort(t.n)
    if t.k == 'float':
        return Flt
    if t.k == 'vector':
        return Obj
    return Ptr


def fork(env):
    e = dict(env)
    e['#mem'] = {a: dict(c) for a, c in env['#mem'].items()}
    return e


class Exec:
    """all paths through fn; every path gives (condition, kernel calls, returned value)"""
    MAXP = 64

    def __init__(self, mod, name, lib=CPU):
        self.mod, self.fn, self.n = mod, mod.function(name), 0
        self.paths, self.q, self.solver_s = [], 0, 0.0
        self.lib = lib

    def fresh(self, sort, b='v'):
        self.n += 1
        return z3.Const(f'{b}!{self.n}', sort)

    def run(self):
        env = {'#mem': {}}
        self.params, self.ptypes, self.sret = [], [], None
        cond = []
        for t, n, at in self.fn.params:
            if any('sret' in str(a) for a in at) or n == 'agg.result':
                self.sret = 'sret'
                env['#mem']['sret'] = {}
                env[n] = P('sret', 0)
                continue
            v = z3.Const('arg_' + n, sort_of(t))
            self.params.append((n, v))
            self.ptypes.append(t)
            env[n] = v
            if n == 'ptr_lib' or (not cond and len(self.params) == 1 and t.k == 'int' and t.n == 32 and 'NS0_3libE' in self.fn.name):
                cond.append(v == self.lib)
        self.go(self.fn, env, cond, [], lambda c, ev, v, e: self.paths.append((c, ev, v, e['#mem'].get('sret'))), 0)
        return self.paths

    def feasible(self, cond):
        s = z3.Solver()
        s.add(*cond)
        self.q += 1
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        return r != z3.unsat

    def val(self, env, v, ty):
        if v[0] == 'v':
            return env[v[1]]
        if v[0] == 'i':
            return z3.BitVecVal(v[1], ty.n)
        if v[0] == 'null':
            return z3.Const('null', Ptr)
        if v[0] == 'g':
            return z3.Const('global_' + v[1], Ptr)
        if v[0] in ('undef', 'poison'):
            return self.fresh(sort_of(ty), 'undef')
        raise Unsupported(f'value {v}')

    def go(self, fn, env, cond, events, ret, depth):
        if depth > 4:
            raise Unsupported('call depth')
        work = [(fn.entry, None, env, cond, events)]
        steps = 0
        while work:
            bname, prev, env, cond, events = work.pop()
            steps += 1
            if steps > 400 or len(self.paths) > self.MAXP:
                raise Unsupported('too many paths')
            b = fn.blocks[bname]
            env, cond, events = fork(env), list(cond), list(events)
            for ph in b.phis:
                for v, l in ph.extra:
                    if l == prev:
                        env[ph.res] = self.val(env, v, ph.ty)
            stop = False
            for ins in b.instrs:
                r = self.instr(ins, env, cond, events, depth)
                if r == 'stop':
                    stop = True
                    break
            if stop:
                continue
            t = b.term
            if t.op == 'ret':
                ret(cond, events, self.val(env, t.args[0], t.ty) if t.args else None, env)
            elif t.op == 'br':
                if len(t.args) == 1:
                    work.append((t.args[0], bname, env, cond, events))
                else:
                    c = self.val(env, t.args[0], ir.T('int', 1))
                    for dst, f in ((t.args[1], c == 1), (t.args[2], c == 0)):
                        f = z3.simplify(f)
                        if z3.is_false(f):
                            continue
                        nc = cond + [f]
                        if self.feasible(nc):
                            work.append((dst, bname, env, nc, events))
            elif t.op == 'switch':
                c = self.val(env, t.args[0], t.ty)
                d, cases = t.extra
                rest = []
                for cv, l in cases:
                    nc = cond + [c == cv]
                    rest.append(c != cv)
                    if self.feasible(nc):
                        work.append((l, bname, env, nc, events))
                nc = cond + rest
                if self.feasible(nc):
                    work.append((d, bname, env, nc, events))
            elif t.op == 'invoke':
                # the unwinding edge is taken only when the callee throws: kernels are extern "C" and do not
                e2 = fork(env)
                r = self.call(t, e2, cond, events, depth)
                if r == 'stop':
                    continue
                work.append((t.extra['dest'][0], bname, e2, cond, events))
            elif t.op == 'unreachable':
                self.paths.append((cond, events + [('throw',)], None, None))
            else:
                raise Unsupported(t.op)

    def instr(self, ins, env, cond, events, depth):
        op = ins.op
        if op == 'alloca':
            self.n += 1
            env['#mem'][self.n] = {}
            env[ins.res] = P(self.n, 0)
        elif op in ('zext', 'sext', 'trunc'):
            v = self.val(env, ins.args[0], ins.extra)
            n, m = ins.extra.n, ins.ty.n
            env[ins.res] = z3.ZeroExt(m - n, v) if op == 'zext' else z3.SignExt(m - n, v) if op == 'sext' else z3.Extract(m - 1, 0, v)
        elif op == 'icmp':
            a, b = (self.val(env, x, ins.ty) for x in ins.args)
            p = ins.extra
            if isinstance(a, P) or isinstance(b, P):
                raise Unsupported('comparison of a local address')
            f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[p]()
            env[ins.res] = z3.If(f, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = (self.val(env, x, ins.ty) for x in ins.args)
            env[ins.res] = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                            'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[op]()
        elif op == 'select':
            c, a, b = self.val(env, ins.args[0], ir.T('int', 1)), self.val(env, ins.args[1], ins.ty), self.val(env, ins.args[2], ins.ty)
            if isinstance(a, P) or isinstance(b, P):
                raise Unsupported('select of local addresses')
            env[ins.res] = z3.If(c == 1, a, b)
        elif op == 'freeze':
            env[ins.res] = self.val(env, ins.args[0], ins.ty)
        elif op == 'store':
            p = self.val(env, ins.args[1], None)
            if not isinstance(p, P):
                events.append(('store',))
                return
            env['#mem'][p.a][p.off] = self.val(env, ins.args[0], ins.ty)
        elif op == 'load':
            p = self.val(env, ins.args[0], None)
            if not isinstance(p, P):
                raise Unsupported('load ' + ins.line)
            c = env['#mem'][p.a]
            if p.off in c and (isinstance(c[p.off], P) and ins.ty.k == 'ptr' or not isinstance(c[p.off], P) and c[p.off].sort() == sort_of(ins.ty)):
                env[ins.res] = c[p.off]
            elif ins.ty.k == 'float':
                b = [o for o, x in c.items() if o <= p.off < o + 8 and not isinstance(x, P) and x.sort() == Obj]
                if len(b) != 1:
                    raise Unsupported('load ' + ins.line)
                env[ins.res] = part(c[b[0]], p.off - b[0])
            else:
                raise Unsupported('load ' + ins.line)
        elif op == 'getelementptr':
            p = self.val(env, ins.args[0], None)
            zero = all(v[0] == 'i' and v[1] == 0 for _, v in ins.extra)
            if zero:
                env[ins.res] = p
            elif isinstance(p, P):
                off, cur = p.off, ins.ty
                for n, (t, v) in enumerate(ins.extra):
                    if v[0] != 'i':
                        raise Unsupported('variable address within a local')
                    if n == 0:
                        off += v[1] * ir.sizeof(self.mod, cur)
                    elif cur.k in ('array', 'vector'):
                        cur = cur.sub
                        off += v[1] * ir.sizeof(self.mod, cur)
                    else:
                        d, cur = ir.fieldoff(self.mod, cur, v[1])
                        off += d
                env[ins.res] = P(p.a, off)
            else:
                f = z3.Function('gep', Ptr, z3.StringSort(), Ptr)
                env[ins.res] = f(p, z3.StringVal(ins.line.split('getelementptr')[1] + str([str(self.val(env, v, t)) for t, v in ins.extra])))
        elif op == 'call':
            return self.call(ins, env, cond, events, depth)
        else:
            m = re.match(r'%(\S+) = extractelement <2 x float> %(\S+), i(?:32|64) ([01])\b', ins.line.strip())
            if not m or m.group(2) not in env:
                raise Unsupported(ins.line)
            env[m.group(1)] = part(env[m.group(2)], 4 * int(m.group(3)))

    def call(self, ins, env, cond, events, depth):
        callee = ins.extra['callee']
        if callee.startswith('@llvm.lifetime') or callee.startswith('@llvm.dbg') or callee.startswith('@llvm.assume') or callee.startswith('@llvm.experimental.noalias'):
            return
        if callee.startswith('@llvm.memcpy'):
            d, s = self.val(env, ins.args[0][1], None), self.val(env, ins.args[1][1], None)
            if not (isinstance(d, P) and isinstance(s, P) and d.off == 0 and s.off == 0):
                raise Unsupported(ins.line)
            env['#mem'][d.a] = dict(env['#mem'][s.a])
            return
        if not callee.startswith('@'):
            raise Unsupported('indirect call')
        name = callee[1:].strip('"')
        args = [self.val(env, v, t) for t, v in ins.args]
        if name.startswith('__cxa_allocate_exception') or name == '__cxa_throw':
            self.paths.append((cond, events + [('throw',)], None, None))
            return 'stop'
        if self.mod.has(name):
            f = self.mod.function(name)
            e2, a = {'#mem': env['#mem']}, iter(args)
            for t, n, at in f.params:
                e2[n] = next(a)
            outs = []
            self.go(f, e2, cond, events, lambda c, ev, v, e: outs.append((c, ev, v, e)), depth + 1)
            if len(outs) != 1:
                raise Unsupported('helper with several paths')
            c, ev, v, e = outs[0]
            env['#mem'] = e['#mem']
            cond[:] = c
            events[:] = ev
            if ins.res:
                env[ins.res] = v
            return
        if not name.startswith('awkward_'):
            raise Unsupported('call to ' + name)
        sret = None
        if any('sret' in str(x) for at in ins.extra['argattrs'][:1] for x in at):
            sret = args.pop(0)
            if not isinstance(sret, P):
                raise Unsupported('sret')
        r = None
        if sret is not None:
            r = self.fresh(Obj, 'result')
            env['#mem'][sret.a] = {0: r}
        elif ins.res:
            r = self.fresh(sort_of(ins.ty), 'result')
            env[ins.res] = r
        events.append(('kernel', name, args, r))


TABLE = HERE + '/dispatch.json'


def expected(e, a):
    """a table entry as a term: parameter index, [k, i] for k * parameter i, ['part', i, offset] for the float in a vector parameter"""
    if isinstance(a, int):
        return e.params[a][1]
    if a[0] == 'part':
        return part(e.params[a[1]][1], a[2])
    return a[0] * e.params[a[1]][1]


def prove(name, mod, con):
    """discharge the contract of one entry point; returns dict(status, obligations, discharged, failed, solver_s)"""
    r = dict(function=name, kind='dispatch', family=con['entry'], file=SRC[1:], status='proved', obligations=0, discharged=0, failed=[], solver_s=0.0, by={})
    if not mod.has(name):
        r.update(status='missing', why='no such function')
        return r
    try:
        e = Exec(mod, name)
        paths = e.run()
    except Unsupported as x:
        r.update(status='unsupported', why=str(x)[:300])
        return r

    def ob(what, cond, goal):
        r['obligations'] += 1
        if goal is True:
            r['discharged'] += 1
            r['by']['path enumeration'] = r['by'].get('path enumeration', 0) + 1
            return
        if goal is not False:
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*cond)
            s.add(z3.Not(goal))
            t = time.time()
            v = s.check()
            r['solver_s'] += time.time() - t
            if v == z3.unsat:
                r['discharged'] += 1
                r['by']['z3'] = r['by'].get('z3', 0) + 1
                return
            if v == z3.sat:
                m = s.model()
                r.setdefault('models', []).append({n: (m.eval(x, model_completion=True).as_long() if z3.is_bv(x) else None) for n, x in e.params})
        elif cond:
            s = z3.Solver()
            s.add(*cond)
            if s.check() == z3.sat:
                m = s.model()
                r.setdefault('models', []).append({n: (m.eval(x, model_completion=True).as_long() if z3.is_bv(x) else None) for n, x in e.params})
        r['failed'].append((what, 'refuted' if goal is False or v == z3.sat else 'unknown', str(goal)[:200]))

    ob('some path returns', [], bool(paths))
    try:
        want = [expected(e, a) for a in con['args']]
    except (IndexError, z3.Z3Exception):
        r.update(status='unsupported', why='the signature has changed')
        return r
    for cond, ev, v, cells in paths:
        ks = [x for x in ev if x[0] == 'kernel']
        ob('does not throw', cond, not any(x[0] == 'throw' for x in ev))
        ob('stores nothing itself', cond, not any(x[0] == 'store' for x in ev))
        ob('calls exactly one kernel', cond, len(ks) == 1)
        if len(ks) != 1:
            continue
        _, k, args, res = ks[0]
        ob('calls ' + con['kernel'], cond, k == con['kernel'])
        ob('passes as many arguments', cond, len(args) == len(want))
        if k != con['kernel'] or len(args) != len(want):
            continue
        for j, (a, w) in enumerate(zip(args, want)):
            ob(f"argument {j} of the kernel", cond, False if isinstance(a, P) or a.sort() != w.sort() else a == w)
        if con['returns']:
            if e.sret:
                ob('returns what the kernel returned', cond, False if set(cells) != {0} or isinstance(cells[0], P) or cells[0].sort() != res.sort() else cells[0] == res)
            else:
                ob('returns what the kernel returned', cond, False if v is None or isinstance(v, P) or res is None or v.sort() != res.sort() else v == res)
    r['solver_s'] += e.solver_s
    if r['failed']:
        r['status'] = 'undecided'
    return r


# ---------------------------------------------------------------- the real code, with recording kernels

def cty(t):
    if t.k == 'int':
        return {1: 'bool', 8: 'uint8_t', 16: 'uint16_t', 32: 'uint32_t', 64: 'uint64_t'}[t.n]
    if t.k == 'float':
        return {32: 'float', 64: 'double'}[t.n]
    if t.k == 'ptr':
        return 'uint64_t'
    raise Unsupported(f'type {t}')


def native_lib(mod, d):
    """kernel-dispatch.cpp compiled by g++ against kernels that record their name and arguments"""
    src = ['#include <cstdint>', '#include <cstring>', 'extern "C" {', 'struct Rec { const char* name; uint64_t n; uint64_t a[32]; uint64_t calls; uint64_t ret[8]; };', 'Rec akv_rec;']
    names = []
    for m in re.finditer(r'^declare ([^\n]*?)@(awkward_\w+)\(([^\n]*)\)[^()\n]*$', module_text(), re.M):
        rt, n, ps = m.group(1), m.group(2), m.group(3)
        names.append(n)
        parts = split_params(ps)
        sret = bool(parts) and 'sret' in parts[0]
        c = []
        for x in parts[1:] if sret else parts:
            t = x.strip().split(' ')[0]
            c.append({'i1': 'bool', 'i8': 'uint8_t', 'i16': 'uint16_t', 'i32': 'uint32_t', 'i64': 'uint64_t', 'float': 'float', 'double': 'double', 'ptr': 'uint64_t'}[t])
        rtok = [t for t in rt.split() if t in ('void', 'i1', 'i8', 'i16', 'i32', 'i64', 'float', 'double', 'ptr')]
        ct = {'void': 'void', 'i1': 'bool', 'i8': 'uint8_t', 'i16': 'uint16_t', 'i32': 'uint32_t', 'i64': 'uint64_t', 'float': 'float', 'double': 'double', 'ptr': 'uint64_t'}[rtok[-1]]
        decl = ', '.join((['void* r_'] if sret else []) + [f'{t} p{i}' for i, t in enumerate(c)])
        body = [f'akv_rec.name = "{n}"; akv_rec.calls++; akv_rec.n = {len(c)}; std::memset(akv_rec.a, 0, sizeof(akv_rec.a));']
        body += [f'std::memcpy(&akv_rec.a[{i}], &p{i}, sizeof(p{i}));' for i in range(len(c))]
        if sret:
            body.append('std::memcpy(r_, akv_rec.ret, 33);')
            ct = 'void*'
            body.append('return r_;')
        elif ct != 'void':
            body.append(f'{ct} v; std::memcpy(&v, akv_rec.ret, sizeof(v)); return v;')
        src.append(f'{ct} {n}({decl}) {{ {" ".join(body)} }}')
    src.append('}')
    open(d + '/stubs.cpp', 'w').write('\n'.join(src))
    build.run([build.GXX, '-std=c++11', '-w', '-O0', '-fPIC', '-c', d + '/stubs.cpp', '-o', d + '/stubs.o'])
    build.run([build.GXX] + build.BASE + inc() + ['-O0', '-fPIC', '-c', build.REPO + SRC, '-o', d + '/kd.o'])
    build.run([build.GXX, '-shared', '-o', d + '/kd.so', d + '/kd.o', d + '/stubs.o', '-Wl,--unresolved-symbols=ignore-all', '-ldl', '-lpthread'])
    return ctypes.CDLL(d + '/kd.so', mode=os.RTLD_LAZY)


_text = [None]


def module_text():
    if _text[0] is None:
        _text[0] = build.raw_ir(build.REPO + SRC, inc())
    return _text[0]


def split_params(ps):
    out, cur, d = [], '', 0
    for c in ps:
        if c in '(<{[':
            d += 1
        if c in ')>}]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


class CRec(ctypes.Structure):
    _fields_ = [('name', ctypes.c_char_p), ('n', ctypes.c_uint64), ('a', ctypes.c_uint64 * 32), ('calls', ctypes.c_uint64), ('ret', ctypes.c_uint8 * 64)]


class Res(ctypes.Structure):
    _fields_ = [('b', ctypes.c_uint8 * 40)]


INTS = {1: ctypes.c_bool, 8: ctypes.c_uint8, 16: ctypes.c_uint16, 32: ctypes.c_uint32, 64: ctypes.c_uint64}


def native_one(lib, mod, name, con, models=(), rounds=12, seed=1):
    """call the real function; returns (calls made, None or dict(inputs, why))"""
    import struct
    rec = CRec.in_dll(lib, 'akv_rec')
    f = getattr(lib, name)
    fn = mod.function(name)
    sret = any('sret' in str(a) for a in fn.params[0][2]) if fn.params else False
    ps = [(n, t) for t, n, at in (fn.params[1:] if sret else fn.params)]
    rnd = random.Random(f'{name}{seed}')
    done = 0
    bufs = [ctypes.create_string_buffer(b'\xa5' * 256, 256) for _ in ps]
    for args in list(models) + [None] * rounds:
        vals, cv, words = [], [], []
        for i, (n, t) in enumerate(ps):
            if args and args.get(n) is not None:
                v = args[n]
            elif i == 0 and ('NS0_3libE' in name) and t.k == 'int':
                v = CPU
            elif t.k == 'int':
                v = rnd.getrandbits(t.n) if t.n > 1 else rnd.getrandbits(1)
            elif t.k == 'ptr':
                v = i
            else:
                v = [rnd.choice([-1, 1]) * rnd.randrange(1, 1 << 20) for _ in range(2 if t.k == 'vector' else 1)]
            vals.append(v)
            if t.k == 'int':
                cv.append(INTS[t.n](v))
                words.append(v)
            elif t.k == 'ptr':
                a = ctypes.addressof(bufs[v])
                cv.append(ctypes.c_void_p(a))
                words.append(a)
            elif t.k == 'vector':
                b = struct.pack('<2f', *v)
                cv.append(ctypes.c_double(struct.unpack('<d', b)[0]))
                words.append(b)
            elif t.n == 32:
                cv.append(ctypes.c_float(v[0]))
                words.append(int.from_bytes(struct.pack('<f', v[0]), 'little'))
            else:
                cv.append(ctypes.c_double(v[0]))
                words.append(int.from_bytes(struct.pack('<d', v[0]), 'little'))
        ret = bytes(rnd.randrange(2 if i == 32 else 256) for i in range(33))
        if con['rtype'] == 'i1':
            ret = bytes([ret[0] & 1]) + ret[1:]
        rec.calls, rec.n, rec.name = 0, 0, None
        ctypes.memmove(rec.ret, ret, 33)
        for b in bufs:
            ctypes.memset(b, 0xa5, 256)
        if sret:
            f.restype = Res
        else:
            f.restype = con['rtype'] and {'i1': ctypes.c_bool, 'i8': ctypes.c_uint8, 'i16': ctypes.c_uint16, 'i32': ctypes.c_uint32, 'i64': ctypes.c_uint64, 'float': ctypes.c_float, 'double': ctypes.c_double, 'ptr': ctypes.c_uint64}.get(con['rtype'])
        got = f(*cv)
        done += 1
        inputs = {n: v for (n, t), v in zip(ps, vals)}

        def bad(why):
            return done, dict(inputs=inputs, why=why)
        if rec.calls != 1:
            return bad(f'{rec.calls} kernel calls instead of one to {con["kernel"]}')
        if rec.name.decode() != con['kernel']:
            return bad(f'calls {rec.name.decode()} instead of {con["kernel"]}')
        for j, a in enumerate(con['args']):
            if isinstance(a, int):
                w = words[a]
            elif a[0] == 'part':
                w = int.from_bytes(words[a[1]][a[2]:a[2] + 4], 'little')
            else:
                w = a[0] * words[a[1]] % (1 << 64)
            if isinstance(w, int) and rec.a[j] != w:
                return bad(f'argument {j} of {con["kernel"]} is {rec.a[j]:#x} instead of {w:#x}')
        if any(b.raw != b'\xa5' * 256 for b in bufs):
            return bad('a buffer is written by the entry point itself')
        if sret and bytes(got.b)[:33] != ret:
            return bad("does not return the kernel's verdict")
        if not sret and con['returns'] and con['rtype'] in ('i1', 'i8', 'i16', 'i32', 'i64', 'ptr'):
            nb = max(1, int(con['rtype'][1:]) // 8) if con['rtype'] != 'ptr' else 8
            if int(got) != int.from_bytes(ret[:nb], 'little'):
                return bad("does not return the kernel's value")
    return done, None


def native(mod, names, table, models, q):
    """runs in a forked child: a crash of the code under test is reported, not suffered"""
    d = tempfile.mkdtemp(prefix='akvkd')
    try:
        lib = native_lib(mod, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for n in names:
        q.put(('start', n, None, None))
        c, bad = native_one(lib, mod, n, table[n], models=models.get(n, ()), seed=int(os.environ.get('VERIF_SEED', '1') or 1))
        q.put(('done', n, c, bad))
    q.put(('end', None, None, None))


def run_native(mod, names, table, models={}, seconds=240):
    import multiprocessing as mp
    import queue
    out, left = {}, list(names)
    end = time.time() + seconds
    while left and time.time() < end:
        q = mp.Queue()
        p = mp.Process(target=native, args=(mod, left, table, models, q))
        p.start()
        cur = None
        while time.time() < end:
            try:
                what, n, c, bad = q.get(timeout=2)
            except queue.Empty:
                if not p.is_alive():
                    break
                continue
            if what == 'end':
                left = []
                break
            if what == 'start':
                cur = n
            else:
                out[n] = (c, bad)
                cur = None
        p.kill()
        p.join()
        if left:
            if cur is None:
                break                      # could not be built
            out[cur] = (1, dict(inputs=None, why='the call does not return (crash)'))
            left = left[left.index(cur) + 1:]
    return out


def check(rep):
    """props 'extra': decide P18"""
    table = json.load(open(TABLE))
    try:
        mod = module()
    except build.BuildError as x:
        mod, err = None, str(x)[-1500:]
    res = {}
    for n, con in table.items():
        res[n] = prove(n, mod, con) if mod else dict(function=n, kind='dispatch', family=con['entry'], file=SRC[1:], status='unsupported', why=err, obligations=0, discharged=0, failed=[], solver_s=0, by={})
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    want = [n for n, r in res.items() if r['status'] in ('undecided', 'unsupported') or thorough and r['status'] == 'proved'] if mod else []
    nat = run_native(mod, want, table, {n: res[n]['models'] for n in want if res[n].get('models')}) if want else {}
    for n, r in res.items():
        c, bad = nat.get(n, (0, None))
        r['native_calls'] = c
        if bad:
            rep(r, inputs=bad['inputs'] if bad['inputs'] is not None else 'any', why=bad['why'])
        elif r['status'] == 'undecided':
            rep(r, inputs=None, why='; '.join(f'{a}: {b} ({c})' for a, b, c in r['failed']))
    by = {}
    for r in res.values():
        for a, b in r['by'].items():
            by[a] = by.get(a, 0) + b
    return dict(obligations=sum(r['obligations'] for r in res.values()), discharged=sum(r['discharged'] for r in res.values()), by=by,
                functions=len(res), functions_proved=sum(r['status'] == 'proved' for r in res.values()), solver_s=sum(r['solver_s'] for r in res.values()),
                trusted=['akv/dispatch.py (symbolic execution of the forwarding functions)', 'akv/dispatch.json: the stated kernel and argument order of each entry point'],
                assumptions=['kernels are extern "C" functions that do not throw', 'ptr_lib is kernel::lib::cpu (the other branches need a GPU library)'],
                coverage=dict(dispatch_not_proved={n: dict(status=r['status'], why=str(r.get('why'))[:300], native_calls=r['native_calls']) for n, r in res.items() if r['status'] != 'proved'},
                              native_executions=sum(r['native_calls'] for r in res.values())))


def describe(mod, name):
    """what the function does now (used once to write the contract table, never by the check)"""
    e = Exec(mod, name)
    ps = [p for p in e.run() if not any(x[0] == 'throw' for x in p[1])]
    out = []
    for cond, ev, v, cells in ps:
        for k in ev:
            if k[0] == 'kernel':
                a = []
                for x in k[2]:
                    i = [j for j, (n, y) in enumerate(e.params) if not isinstance(x, P) and y.eq(x)]
                    a.append(i[0] if i else str(x))
                out.append((k[1], a))
            else:
                out.append(k)
    return out, [n for n, _ in e.params]


def replay_main(doc):
    mod = module()
    table = json.load(open(TABLE))
    n = doc['function']
    r = prove(n, mod, table[n])
    print(json.dumps({a: b for a, b in r.items()}, default=str))
    nat = run_native(mod, [n], table, {n: ([doc['inputs']] if isinstance(doc.get('inputs'), dict) else []) + r.get('models', [])})
    print(nat)
    return 1 if r['failed'] or any(b for _, b in nat.values()) else 0
