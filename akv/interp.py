"""Concrete interpreter for the same IR the proof is about.  Used to discard
invariant candidates that are not even true on examples, and to find failing inputs."""
import functools, re, math, struct
from . import ir, dsl, build
from .dsl import CT, trange, f32
from .ir import Unsupported, sizeof, fieldoff
from .sem import parse_float


class Trap(Exception):
    """memory violation, signed overflow, division by zero, unreachable"""
    def __init__(self, kind, msg):
        Exception.__init__(self, f'{kind}: {msg}')
        self.kind = kind


class Budget(Exception):
    pass


class ConState:
    mode = 'con'

    def __init__(self, ts, mem, phis):
        self.ts, self._mem, self.phis = ts, mem, phis

    def mem(self, region, i):
        m = self._mem[region]
        if isinstance(i, tuple):
            if not (0 <= i[0] < len(m) and 0 <= i[1] < len(m[i[0]])):
                raise dsl.Reject('outside')
            return m[i[0]][i[1]]
        if not 0 <= i < len(m):
            raise dsl.Reject('outside')
        return m[i]

    def phi(self, header, name):
        return self.phis[(header, name)]


class Interp:
    def __init__(self, mod, fn, sig, k, budget=60000, header_hook=None, check_overflow=True):
        self.mod, self.fn, self.sig, self.k = mod, fn, sig, k
        self.budget, self.hook, self.chk = budget, header_hook, check_overflow and not k.flags.get('wrap_ok')
        self.mem, self.reg = {}, {}
        self.level = 0
        self.allocs = []
        self.env = {}
        ps = list(fn.params)
        self.sret = False
        if ps and 'sret' in ps[0][2]:
            self.env[ps[0][1]] = ('$ret', 0)
            self.mem['$ret'] = {}
            self.reg['$ret'] = ('cells', None, 0, True)
            self.sret = True
            ps = ps[1:]
        if len(ps) != len(sig['args']):
            raise Unsupported('parameter count')
        for (ty, nm, at), a in zip(ps, sig['args']):
            an = a['name']
            v = k.inputs[an]
            if a['ptr'] == 2:
                self.mem[an] = [list(r) for r in v]
                self.reg[an] = ('rows', k.arrs[an].ct, CT[k.arrs[an].ct][1] // 8, an in k.out_regions)
                self.env[nm] = (an, 0)
            elif a['ptr']:
                self.mem[an] = list(v)
                self.reg[an] = ('arr', k.arrs[an].ct, CT[k.arrs[an].ct][1] // 8, an in k.out_regions)
                self.env[nm] = (an, 0)
            else:
                kind, n, s = CT[a['type']]
                if kind == 'int' and not s and v >= 1 << (n - 1):
                    v -= 1 << n
                self.env[nm] = bool(v) if kind == 'bool' else v

    # ---- operands
    def val(self, op, ty):
        k = op[0]
        if k == 'v':
            return self.env[op[1]]
        if k == 'i':
            if ty.n == 1:
                return bool(op[1] & 1)
            return op[1]
        if k == 'f':
            x = parse_float(op[1], ty.n)
            return f32(x) if ty.n == 32 else x
        if k == 'null':
            return None
        if k == 'g':
            return (('g', op[1]), 0)
        if k == 'zero':
            return None if ty.k == 'ptr' else 0
        if k == 'undef':
            return {'int': 0, 'float': 0.0, 'ptr': None}[ty.k] if not (ty.k == 'int' and ty.n == 1) else False
        if k == 'cgep':
            return self.val(op[2][0][1], op[2][0][0])
        raise Unsupported(f'operand {op}')

    def run(self):
        fn = self.fn
        cur, prev = fn.entry, None
        steps = 0
        self.counters = {}
        blocks = fn.blocks
        while True:
            blk = blocks[cur]
            if blk.phis:
                new = {}
                for ph in blk.phis:
                    for v, l in ph.extra:
                        if l == prev:
                            new[ph.res] = self.val(v, ph.ty)
                            break
                self.env.update(new)
            lp = fn.loops.get(cur)
            if lp is not None:
                if prev in lp.latches:
                    self.counters[cur] += 1
                else:
                    self.counters[cur] = 0
                if self.hook:
                    self.hook(self, lp)
            for ins in blk.instrs:
                self.step(ins)
            steps += len(blk.instrs) + 1
            if steps > self.budget:
                raise Budget()
            t = blk.term
            prev = cur
            if t.op == 'br':
                if len(t.args) == 1:
                    cur = t.args[0]
                else:
                    cur = t.args[1] if self.val(t.args[0], ir.T('int', 1)) else t.args[2]
            elif t.op == 'switch':
                x = self.val(t.args[0], t.ty)
                n = t.ty.n
                cur = t.extra[0]
                for c, l in t.extra[1]:
                    if (c - x) % (1 << n) == 0:
                        cur = l
                        break
            elif t.op == 'ret':
                self.ret = self.val(t.args[0], t.ty) if t.args else None
                return self
            elif t.op == 'unreachable':
                raise Trap('unreachable', cur)
            else:
                raise Unsupported(t.line)

    def error(self):
        """None or (identity, attempt)"""
        if not self.sret:
            return None
        c = self.mem['$ret']
        if 0 not in c:
            raise Unsupported('error not set')
        if c[0] is None:
            return None
        return c[16], c[24]

    def step(self, ins):
        op = ins.op
        if op == 'load':
            self.env[ins.res] = self.load(ins)
        elif op == 'store':
            self.store(ins)
        elif op == 'getelementptr':
            self.env[ins.res] = self.gep(ins)
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.val(ins.args[0], ins.ty), self.val(ins.args[1], ins.ty)
            self.env[ins.res] = self.arith(ins, op, ins.ty.n, a, b)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.val(ins.args[0], ins.ty), self.val(ins.args[1], ins.ty)
            self.env[ins.res] = dsl.fop(op, ins.ty.n, a, b)
        elif op == 'fneg':
            self.env[ins.res] = -self.val(ins.args[0], ins.ty)
        elif op == 'icmp':
            a, b = self.val(ins.args[0], ins.ty), self.val(ins.args[1], ins.ty)
            self.env[ins.res] = self.icmp(ins.extra, ins.ty, a, b)
        elif op == 'fcmp':
            a, b = self.val(ins.args[0], ins.ty), self.val(ins.args[1], ins.ty)
            self.env[ins.res] = {'true': True, 'false': False}[ins.extra] if ins.extra in ('true', 'false') else dsl.fcmp(ins.extra, ins.ty.n, a, b)
        elif op == 'select':
            c = self.val(ins.args[0], ir.T('int', 1))
            self.env[ins.res] = self.val(ins.args[1] if c else ins.args[2], ins.ty)
        elif op in ir.CAST:
            self.env[ins.res] = self.cast(ins)
        elif op == 'freeze':
            self.env[ins.res] = self.val(ins.args[0], ins.ty)
        elif op == 'extractvalue' and ins.args[0][0] == 'v' and isinstance(self.env.get(ins.args[0][1]), tuple) and len(ins.extra) == 1:
            self.env[ins.res] = self.env[ins.args[0][1]][ins.extra[0]]
        elif op == 'alloca':
            nm = '$' + ins.res
            if ins.ty.k in ('int', 'float') and ins.ty.n >= 8 and ins.res in self.fn.pointed():
                n = ins.ty.n
                self.mem[nm] = [0]
                self.reg[nm] = ('arr', {'int': f'int{n}_t', 'float': 'float' if n == 32 else 'double'}[ins.ty.k], n // 8, True)
            elif ins.ty.k == 'array' and ins.ty.sub.k in ('int', 'float'):
                n = ins.ty.sub.n
                ct = {'int': {8: 'int8_t', 16: 'int16_t', 32: 'int32_t', 64: 'int64_t'}, 'float': {32: 'float', 64: 'double'}}[ins.ty.sub.k][n]
                self.mem[nm] = [0] * ins.ty.n
                self.reg[nm] = ('arr', ct, n // 8, True)
            else:
                self.mem[nm] = {}
                self.reg[nm] = ('cells', None, 0, True)
            self.env[ins.res] = (nm, 0)
        elif op == 'call':
            self.call(ins)
        else:
            raise Unsupported(ins.line)

    def at(self, p, ins, write, sz):
        if p is None or isinstance(p[0], tuple):
            raise Trap('memory', 'invalid pointer at ' + ins.line)
        kind, ct, es, w = self.reg[p[0]]
        if kind == 'cells':
            return
        if write and not w:
            raise Trap('frame', f'write to input {p[0]} at ' + ins.line)
        if kind == 'rows':
            if isinstance(p[1], tuple):
                r, o = p[1]
                if not (0 <= r < len(self.mem[p[0]]) and 0 <= o < len(self.mem[p[0]][r])):
                    raise Trap('memory', f'{p[0]}[{r}][{o}] out of bounds')
            elif not 0 <= p[1] < len(self.mem[p[0]]):
                raise Trap('memory', f'{p[0]}[{p[1]}] out of bounds')
            return
        if es != sz:
            raise Unsupported('width')
        if not 0 <= p[1] < len(self.mem[p[0]]):
            raise Trap('memory', f'{"write" if write else "read"} {p[0]}[{p[1]}], {len(self.mem[p[0]])} elements, at {ins.line}')

    def load(self, ins):
        p = self.val(ins.args[0], None)
        ty = ins.ty
        self.at(p, ins, False, sizeof(self.mod, ty))
        r, o = p
        kind, ct, es, w = self.reg[r]
        if kind == 'cells':
            return self.mem[r].get(o, 0 if ty.k == 'int' else (0.0 if ty.k == 'float' else None))
        if kind == 'rows':
            if not isinstance(o, tuple):
                return (r, (o, 0))
            v = self.mem[r][o[0]][o[1]]
        else:
            v = self.mem[r][o]
        ck, n, s = CT[ct]
        if ty.k == 'int' and ck == 'float':
            v, s = dsl.f2bits(v, n), False
        if ty.k == 'int':
            if ty.n == 1:
                return v != 0
            if not s and v >= 1 << (n - 1):
                v -= 1 << n
        return v

    def store(self, ins):
        v = self.val(ins.args[0], ins.ty)
        p = self.val(ins.args[1], None)
        self.at(p, ins, True, sizeof(self.mod, ins.ty))
        self.put(p, v)

    def put(self, p, v):
        r, o = p
        kind, ct, es, w = self.reg[r]
        if kind == 'cells':
            self.mem[r][o] = v
            return
        ck, n, s = CT[ct]
        if ck == 'bool':
            v = int(v) & 255
        elif ck == 'float' and isinstance(v, int) and not isinstance(v, bool):
            v = dsl.bits2f(v % (1 << n), n)
        elif ck == 'int':
            v = int(v)
            if not s and v < 0:
                v += 1 << n
        if isinstance(o, tuple):
            self.mem[r][o[0]][o[1]] = v
        else:
            self.mem[r][o] = v

    def gep(self, ins):
        base = self.val(ins.args[0], None)
        if base is None or isinstance(base[0], tuple):
            return base
        r, o = base
        kind, ct, es, w = self.reg[r]
        delta = 0
        cur = ins.ty
        for n, (t, v) in enumerate(ins.extra):
            i = self.val(v, t)
            if n == 0:
                delta += i * sizeof(self.mod, cur)
            elif cur.k in ('array', 'vector'):
                cur = cur.sub
                delta += i * sizeof(self.mod, cur)
            else:
                d, cur = fieldoff(self.mod, cur, i)
                delta += d
        if kind == 'cells':
            return (r, o + delta)
        if kind == 'rows' and not isinstance(o, tuple):
            es = 8
        if delta % es:
            raise Unsupported('misaligned')
        if isinstance(o, tuple):
            return (r, (o[0], o[1] + delta // es))
        return (r, o + delta // es)

    def arith(self, ins, op, n, a, b):
        if n == 1:
            return {'and': a and b, 'or': a or b, 'xor': a != b, 'add': a != b, 'sub': a != b}[op]
        h, M = 1 << (n - 1), 1 << n
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if -h <= r < h:
                return r
            if 'nsw' in ins.flags and self.chk:
                raise Trap('overflow', ins.line)
            return (r + h) % M - h
        if op in ('sdiv', 'srem'):
            if b == 0:
                raise Trap('overflow', 'division by zero')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            if q == h:
                raise Trap('overflow', 'division overflow')
            return q if op == 'sdiv' else a - q * b
        ua, ub = a % M, b % M
        if op in ('udiv', 'urem'):
            if ub == 0:
                raise Trap('overflow', 'division by zero')
            r = ua // ub if op == 'udiv' else ua % ub
        elif op == 'shl':
            if ub >= n:
                raise Trap('overflow', 'shift')
            r = ua << ub
            if 'nsw' in ins.flags and self.chk and not -h <= (a << ub) < h:
                raise Trap('overflow', ins.line)
        elif op == 'lshr':
            r = ua >> ub
        elif op == 'ashr':
            r = a >> ub
        else:
            r = {'and': ua & ub, 'or': ua | ub, 'xor': ua ^ ub}[op]
        return (r + h) % M - h

    def icmp(self, pred, ty, a, b):
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if ty.k == 'ptr':
            if a is None or b is None or a[0] != b[0]:
                raise Unsupported('order of pointers into different objects')
            a, b = a[1], b[1]
            p = pred[1:]
            return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
        if pred[0] == 'u':
            M = 1 << ty.n
            a, b = int(a) % M, int(b) % M
        p = pred[1:]
        return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b

    def cast(self, ins):
        op, ty, src = ins.op, ins.ty, ins.extra
        v = self.val(ins.args[0], src)
        if op == 'sext':
            return (-1 if v else 0) if src.n == 1 else v
        if op == 'zext':
            return int(v) if src.n == 1 else v % (1 << src.n)
        if op == 'trunc':
            if ty.n == 1:
                return bool(v & 1)
            h = 1 << (ty.n - 1)
            return (v + h) % (1 << ty.n) - h
        if op == 'sitofp':
            v = (-1 if v else 0) if src.n == 1 else v
            return dsl.i2f(v, 0, ty.n)
        if op == 'uitofp':
            return dsl.i2f(int(v) % (1 << src.n), 0, ty.n)
        if op in ('fptosi', 'fptoui'):
            ct = ('int' if op == 'fptosi' else 'uint') + f'{ty.n}_t'
            r = dsl.f2i(v, src.n, ct)
            if op == 'fptoui' and r >= 1 << (ty.n - 1):
                r -= 1 << ty.n
            return r
        if op in ('fpext', 'fptrunc'):
            return dsl.f2f(v, src.n, ty.n)
        if op == 'bitcast':
            if src.k == 'float' and ty.k == 'int':
                u = dsl.f2bits(v, src.n)
                return u - (1 << ty.n) if u >> (ty.n - 1) else u
            if src.k == 'int' and ty.k == 'float':
                return dsl.bits2f(v % (1 << src.n), ty.n)
            return v
        if op == 'ptrtoint' and ty.n == 64:
            if v is None:
                return 0
            kind, ct, es, w = self.reg.get(v[0], (None,) * 4)
            if kind == 'arr':
                return (1 + sorted(self.reg).index(v[0])) * (1 << 40) + v[1] * es
        if op == 'inttoptr':
            if v == 0:
                return None
            rs = sorted(self.reg)
            i = ((v + (1 << 39)) >> 40) - 1
            if 0 <= i < len(rs) and self.reg[rs[i]][0] == 'arr':
                es = self.reg[rs[i]][2]
                if (v - ((i + 1) << 40)) % es == 0:
                    return (rs[i], (v - ((i + 1) << 40)) // es)
            raise Trap('memory: pointer made of a number')
        raise Unsupported(op)

    def call(self, ins):
        c = ins.extra['callee'].lstrip('@').strip('"')
        if c.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.stack', 'llvm.assume')):
            return
        if c.startswith('llvm.expect.'):
            self.env[ins.res] = self.val(ins.args[0][1], ins.args[0][0])
            return
        if c.startswith(('llvm.memcpy', 'llvm.memmove')) or c in ('memcpy', 'memmove'):
            d, s, n = (self.val(v, t) for t, v in ins.args[:3])
            if n:
                self.copy(ins, d, s, n)
            if ins.res:
                self.env[ins.res] = d
            return
        if c.startswith('llvm.memset'):
            d, x, n = (self.val(v, t) for t, v in ins.args[:3])
            kind, ct, es, w = self.reg[d[0]]
            if kind == 'cells':
                self.mem[d[0]] = {}
                return
            if n % es:
                raise Unsupported('memset')
            raw = bytes([x % 256]) * es
            ck, nb, sg = CT[ct]
            v = struct.unpack('<f' if nb == 32 else '<d', raw)[0] if ck == 'float' else int.from_bytes(raw, 'little', signed=sg)
            for i in range(n // es):
                self.at((d[0], d[1] + i), ins, True, es)
                self.mem[d[0]][d[1] + i] = v
            return
        if c.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            a, b = (self.val(v, t) for t, v in ins.args[:2])
            M = 1 << ins.ty.n
            key = (lambda x: x) if c[5] == 's' else (lambda x: x % M)
            self.env[ins.res] = max(a, b, key=key) if 'max' in c else min(a, b, key=key)
            return
        m = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)$', c)
        if m:
            n = int(m.group(3))
            x, y = (self.val(v, t) for t, v in ins.args[:2])
            if m.group(1) == 'u':
                x, y = x % (1 << n), y % (1 << n)
            t = x + y if m.group(2) == 'add' else x - y if m.group(2) == 'sub' else x * y
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if m.group(1) == 's' else (0, (1 << n) - 1)
            w = t % (1 << n)
            self.env[ins.res] = (w - (1 << n) if w >> (n - 1) else w, int(t < lo or t > hi))
            return
        if c.startswith('llvm.bswap.i'):
            n = ins.ty.n
            w = dsl.bswap_u(self.val(ins.args[0][1], ins.args[0][0]) % (1 << n), n)
            self.env[ins.res] = w - (1 << n) if w >> (n - 1) else w
            return
        if c.startswith('llvm.ceil.f'):
            self.env[ins.res] = dsl.fceil(self.val(ins.args[0][1], ins.args[0][0]), 64)
            return
        if c.startswith('llvm.abs'):
            self.env[ins.res] = abs(self.val(ins.args[0][1], ins.args[0][0]))
            return
        if c == '_Znwm':
            r = f"$new{next(n for n, i in enumerate(self.fn.news()) if i is ins)}"
            self.mem[r] = [0] * (self.val(ins.args[0][1], ins.args[0][0]) // 8)
            self.reg[r] = ('arr', 'int64_t', 8, True)
            self.env[ins.res] = (r, 0)
            return
        if c.startswith('_ZdlPv') or (c.startswith('_ZSt') and '__throw_' in c):
            return
        if re.match(build.SORTS, c):
            self.sort(ins, c)
            return
        h = self.k.concallees.get(c)
        if h is not None:
            r = h(self, ins, c)
            if ins.res:
                self.env[ins.res] = r
            return
        if self.k.flags.get('calls') and self.mod.has(c):
            r = self.subcall(ins, c)
            if ins.res:
                self.env[ins.res] = r
            return
        raise Unsupported(f'call of {c}')

    def sort(self, ins, c):
        first, last = (self.val(v, t) for t, v in ins.args[:2])
        if first == last:
            return
        if first is None or last is None or first[0] != last[0] or not 0 <= first[1] <= last[1] <= len(self.mem[first[0]]):
            raise Trap('memory', 'range at ' + ins.line)
        cmp = sorted(build.compared_by(self.mod.calls(), c))
        if len(cmp) != 1:
            raise Unsupported('comparison handed to sort')
        fn = self.mod.function(cmp[0])
        this = []
        if len(fn.params) == 3:
            this = [('$this', 0)]
            if 'byval' in self.mod.head(c):
                this = [self.val(ins.args[2][1], ins.args[2][0])]
            else:
                self.reg['$this'] = ('cells', None, 0, True)
                self.mem['$this'] = {8 * j: self.val(v, t) for j, (t, v) in enumerate(ins.args[2:])}

        byref = ['ptr' in str(q[0]) for q in fn.params[len(this):]]

        def less(a, b):
            ab = [a, b]
            for j, x in enumerate((a, b)):
                if byref[j]:
                    self.reg[f'$elem{j}'], self.mem[f'$elem{j}'], ab[j] = ('cells', None, 0, False), {0: x}, (f'$elem{j}', 0)
            it = Interp.__new__(Interp)
            it.__dict__.update(self.__dict__)
            it.level, it.hook, it.fn = self.level + 1, None, fn
            it.env = {nm: v for (ty, nm, at), v in zip(fn.params, this + ab)}
            it.run()
            return it.ret
        m = self.mem[first[0]]
        m[first[1]:last[1]] = sorted(m[first[1]:last[1]], key=functools.cmp_to_key(lambda a, b: -1 if less(a, b) else 1 if less(b, a) else 0))

    def subcall(self, ins, c):
        """interpret the body of another function of the module"""
        fn = self.mod.function(c)
        if len(fn.params) != len(ins.args) or self.level > 40:
            raise Unsupported(f'call of {c}')
        it = Interp.__new__(Interp)
        it.__dict__.update(self.__dict__)
        it.level, it.hook, it.fn = self.level + 1, None, fn
        it.env = {nm: self.val(v, t) for (ty, nm, at), (t, v) in zip(fn.params, ins.args)}
        it.run()
        return it.ret

    def copy(self, ins, d, s, n):
        kd, cd, ed, wd = self.reg[d[0]]
        ks, cs, es, ws = self.reg[s[0]]
        if kd == 'cells' and ks == 'cells':
            src = {o - s[1]: v for o, v in self.mem[s[0]].items() if s[1] <= o < s[1] + n}
            for o, v in src.items():
                self.mem[d[0]][d[1] + o] = v
            return
        row = None
        if ks == 'rows' and isinstance(s[1], tuple):
            row, so = s[1]
            at = lambda i: (s[0], (row, so + i))
            get = lambda i: self.mem[s[0]][row][so + i]
        else:
            at = lambda i: (s[0], s[1] + i)
            get = lambda i: self.mem[s[0]][s[1] + i]
        if kd != 'arr' or (ks != 'arr' and row is None) or ed != es or n % es:
            raise Unsupported('memcpy')
        vals = []
        for i in range(n // es):
            self.at(at(i), ins, False, es)
            vals.append(get(i))
        for i, v in enumerate(vals):
            self.at((d[0], d[1] + i), ins, True, es)
            if CT[cd][0] == 'int' and CT[cs][0] == 'int':
                v = dsl.wrap(v, cd)
            self.mem[d[0]][d[1] + i] = v
