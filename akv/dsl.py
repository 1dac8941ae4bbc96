"""The contract language.

A contract is a Python function c(k).  It is executed once per mode:
  sym  - builds z3 terms (the proof);
  con  - evaluates on concrete inputs (candidate filtering, replay oracle);
  gen  - draws concrete inputs that satisfy the precondition;
  bnd  - like sym, quantifiers and recursion expanded up to a bound (search only).
so precondition, postcondition and oracle are one text.
"""
import random, struct, math
import z3

LMAX = 1 << 56          # no buffer has more elements than this (address space)
VMAX = 1 << 60          # bound used for "any reasonable" 64-bit value where the code adds such values

CT = {  # ctype -> (kind, bits, signed)
    'bool': ('bool', 8, False),
    'int8_t': ('int', 8, True), 'uint8_t': ('int', 8, False), 'int16_t': ('int', 16, True), 'uint16_t': ('int', 16, False),
    'int32_t': ('int', 32, True), 'uint32_t': ('int', 32, False), 'int64_t': ('int', 64, True), 'uint64_t': ('int', 64, False),
    'float': ('float', 32, True), 'double': ('float', 64, True), 'char': ('int', 8, True),
}


def trange(ct):
    kind, n, s = CT[ct]
    if kind == 'bool':
        return 0, 1
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)


CONMAX = 5000           # concrete evaluation gives up on longer ranges


class Reject(Exception):
    pass


class TooBig(Reject):
    """concrete evaluation would take too long; says nothing about the input"""


F32 = z3.DeclareSort('F32')
F64 = z3.DeclareSort('F64')
I = z3.IntSort()
B = z3.BoolSort()


def fsort(bits):
    return {32: F32, 64: F64}[bits]


_uf = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.sexpr() for s in sorts)
    if key not in _uf:
        _uf[key] = z3.Function(name, *sorts)
    return _uf[key]


imul_f = z3.Function('imul', I, I, I)


def is_sym(*xs):
    return any(isinstance(x, z3.ExprRef) for x in xs)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if isinstance(x, z3.ExprRef):
            out.append(x)
        elif not x:
            return False
    return True if not out else (out[0] if len(out) == 1 else z3.And(*out))


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if isinstance(x, z3.ExprRef):
            out.append(x)
        elif x:
            return True
    return False if not out else (out[0] if len(out) == 1 else z3.Or(*out))


def Not(x):
    return z3.Not(x) if isinstance(x, z3.ExprRef) else (not x)


def Implies(a, b):
    return Or(Not(a), b)


def toz(x):
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return fconst(x, 64)
    raise TypeError(x)


def If(c, a, b):
    if isinstance(c, z3.ExprRef):
        if a is b:
            return a
        return z3.If(c, toz(a), toz(b))
    return a if c else b


def Iff(a, b):
    if is_sym(a, b):
        return toz(a) == toz(b)
    return bool(a) == bool(b)


def eq(a, b):
    """equality of values; for concrete floats: same value or both NaN (and same sign of zero ignored)"""
    if is_sym(a, b):
        return toz(a) == toz(b)
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        return a == b or (a != a and b != b)
    return a == b


def _poly(e):
    """linear form: list of (coefficient, atom or None)"""
    if not is_sym(e):
        return [(e, None)]
    if z3.is_int_value(e):
        return [(e.as_long(), None)]
    if z3.is_add(e):
        return [x for c in e.children() for x in _poly(c)]
    if z3.is_mul(e):
        ch = e.children()
        if len(ch) == 2 and z3.is_int_value(ch[0]):
            k = ch[0].as_long()
            return [(k * c, a) for c, a in _poly(ch[1])]
        if len(ch) == 2 and z3.is_int_value(ch[1]):
            k = ch[1].as_long()
            return [(k * c, a) for c, a in _poly(ch[0])]
    if z3.is_sub(e) and e.num_args() == 2:
        return _poly(e.arg(0)) + [(-c, a) for c, a in _poly(e.arg(1))]
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        return [(-c, a) for c, a in _poly(e.arg(0))]
    return [(1, e)]


def _factors(a):
    if z3.is_app(a) and a.decl().name() == 'imul':
        return _factors(a.arg(0)) + _factors(a.arg(1))
    return [a]


def mul(a, b):
    """product; symbolic*symbolic becomes a canonical sum of imul monomials"""
    if not is_sym(a, b):
        return a * b
    if not is_sym(a) or z3.is_int_value(a) or not is_sym(b) or z3.is_int_value(b):
        return a * b
    pa, pb = _poly(z3.simplify(a)), _poly(z3.simplify(b))
    out = 0
    for c, x in pa:
        for d, y in pb:
            if x is None and y is None:
                m = z3.IntVal(1)
            elif x is None:
                m = y
            elif y is None:
                m = x
            else:
                fs = sorted(_factors(x) + _factors(y), key=lambda z: (z.sexpr()))
                m = fs[0]
                for f in fs[1:]:
                    m = imul_f(m, f)
            out = out + (c * d) * m
    return z3.simplify(out)


def fconst(x, bits):
    b = struct.pack('<f' if bits == 32 else '<d', x).hex()
    return z3.Const(f'fc{bits}_{b}', fsort(bits))


def wrap(x, ct):
    """reduce a mathematical integer to the C type's range, modulo 2^n"""
    kind, n, s = CT[ct]
    if kind == 'bool':
        return If(x != 0, 1, 0)
    lo, hi = trange(ct)
    if is_sym(x):
        if s:
            return (x + (1 << (n - 1))) % (1 << n) - (1 << (n - 1))
        return x % (1 << n)
    return (x - lo) % (1 << n) + lo


# ---- floating point: uninterpreted in proofs, IEEE (via Python/struct) when concrete
def f32(x):
    if x != x or x in (math.inf, -math.inf):
        return x
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fop(op, bits, a, b):
    if is_sym(a, b):
        s = fsort(bits)
        return uf(f'{op}{bits}', s, s, s)(a, b)
    try:
        if op == 'fadd':
            r = a + b
        elif op == 'fsub':
            r = a - b
        elif op == 'fmul':
            r = a * b
        elif op == 'fdiv':
            r = a / b if b != 0 else (math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b))
        else:
            raise TypeError(op)
    except OverflowError:
        r = math.inf
    return f32(r) if bits == 32 else r


def fneg(bits, a):
    if is_sym(a):
        s = fsort(bits)
        return uf(f'fneg{bits}', s, s)(a)
    return -a


def fcmp(pred, bits, a, b):
    """every predicate reduced to olt, ole, oeq, ord"""
    if not is_sym(a, b):
        un = a != a or b != b
        base = {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b and not un}
        if pred == 'ord':
            return not un
        if pred == 'uno':
            return un
        r = base[pred[1:]]
        if pred[0] == 'o':
            return r and not un
        return bool(r or un)
    s = fsort(bits)
    if not is_sym(a):
        a = fconst(a, bits)
    if not is_sym(b):
        b = fconst(b, bits)

    # every comparison in terms of <= : x<y iff x<=y and not y<=x; x==y iff x<=y and y<=x; x is a number iff x<=x
    def ole(x, y): return uf(f'ole{bits}', s, s, B)(x, y)
    def olt(x, y): return z3.And(ole(x, y), z3.Not(ole(y, x)))
    def oeq(x, y): return z3.And(ole(x, y), ole(y, x))
    def od(x, y): return z3.And(ole(x, x), ole(y, y))
    t = {'olt': lambda: olt(a, b), 'ogt': lambda: olt(b, a), 'ole': lambda: ole(a, b), 'oge': lambda: ole(b, a), 'oeq': lambda: oeq(a, b),
         'une': lambda: z3.Not(oeq(a, b)), 'ult': lambda: z3.Not(ole(b, a)), 'ugt': lambda: z3.Not(ole(a, b)),
         'ule': lambda: z3.Not(olt(b, a)), 'uge': lambda: z3.Not(olt(a, b)), 'ord': lambda: od(a, b), 'uno': lambda: z3.Not(od(a, b)),
         'one': lambda: z3.And(od(a, b), z3.Not(oeq(a, b))), 'ueq': lambda: z3.Or(z3.Not(od(a, b)), oeq(a, b))}
    return t[pred]()


def bswap_u(u, n):
    """bytes of the n-bit unsigned number u in the opposite order"""
    if is_sym(u):
        return uf(f'bswap{n}', I, I)(u)
    return int.from_bytes((u % (1 << n)).to_bytes(n // 8, 'little'), 'big')


def f2bits(x, n):
    if is_sym(x):
        return uf(f'f2bits{n}', fsort(n), I)(x)
    return struct.unpack('<I' if n == 32 else '<Q', struct.pack('<f' if n == 32 else '<d', x))[0]


def bits2f(u, n):
    if is_sym(u):
        return uf(f'bits2f{n}', I, fsort(n))(u)
    x = struct.unpack('<f' if n == 32 else '<d', struct.pack('<I' if n == 32 else '<Q', u))[0]
    if x != x:
        raise Reject('NaN bits')
    return x


def bits_axioms(n):
    u = z3.Int('bu')
    f = uf(f'bswap{n}', I, I)
    out = [z3.ForAll([u], z3.And(f(u) >= 0, f(u) < (1 << n)), patterns=[f(u)]),
           z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < (1 << n)), f(f(u)) == u), patterns=[f(f(u))])]
    if n in (32, 64):
        x = z3.Const('bx', fsort(n))
        b, c = uf(f'f2bits{n}', fsort(n), I), uf(f'bits2f{n}', I, fsort(n))
        out += [z3.ForAll([x], z3.And(b(x) >= 0, b(x) < (1 << n), c(b(x)) == x), patterns=[b(x)]),
                z3.ForAll([u], z3.Implies(z3.And(u >= 0, u < (1 << n)), b(c(u)) == u), patterns=[c(u)])]
    return out


def byteswapped(x, ct):
    """the value whose bytes are those of x, a ct, in the opposite order"""
    kind, n, sg = CT[ct]
    if n == 8 or kind == 'bool':
        return x
    if kind == 'float':
        return bits2f(bswap_u(f2bits(x, n), n), n)
    r = bswap_u(If(x < 0, x + (1 << n), x) if sg else x, n)
    return If(r >= (1 << (n - 1)), r - (1 << n), r) if sg else r


def fceil(x, bits):
    if is_sym(x):
        return uf(f'ceil{bits}', fsort(bits), fsort(bits))(x)
    return float(math.ceil(x)) if math.isfinite(x) else x


def i2f(x, signed_src_bits, bits):
    """int -> float. The value alone determines the result, so one UF per target width suffices."""
    if is_sym(x):
        if z3.is_int_value(x):
            return fconst(float(x.as_long()), bits)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), i2f(x.arg(1), signed_src_bits, bits), i2f(x.arg(2), signed_src_bits, bits))
        return uf(f'i2f{bits}', I, fsort(bits))(x)
    return f32(float(x)) if bits == 32 else float(x)


def f2i(x, bits, ct):
    kind, n, s = CT[ct]
    if is_sym(x):
        return uf(f'f{bits}toi_{n}{"s" if s else "u"}', fsort(bits), I)(x)
    if x != x or x in (math.inf, -math.inf):
        raise Reject('float->int out of range')      # undefined behaviour in C++: excluded by the precondition
    v = int(x)
    lo, hi = trange(ct)
    if not lo <= v <= hi:
        raise Reject('float->int out of range')
    return v


def f2f(x, a, b):
    if a == b:
        return x
    if is_sym(x):
        return uf(f'f{a}tof{b}', fsort(a), fsort(b))(x)
    return f32(x) if b == 32 else x


def cast(x, src, dst):
    """C conversion (dst)(src x), mathematical in range, modular otherwise."""
    ks, ns, ss = CT[src]
    kd, nd, sd = CT[dst]
    if ks == 'bool':
        x = If(x != 0, 1, 0)
        if is_sym(x) and kd == 'int':
            return x
    if ks == 'float':
        if kd == 'float':
            return f2f(x, ns, nd)
        if kd == 'bool':
            return If(fcmp('une', ns, x, fconst(0.0, ns) if is_sym(x) else 0.0), 1, 0)
        return f2i(x, ns, dst)
    if kd == 'float':
        return i2f(x, ns, nd)
    if kd == 'bool':
        return If(x != 0, 1, 0)
    a, b = trange(src)
    c, d = trange(dst)
    if c <= a and b <= d:
        return x
    return wrap(x, dst)


# --------------------------------------------------------------------------
class Arr:
    """An array argument: its contents when the kernel was called."""
    def __init__(self, k, name, ct, length, mem):
        self.k, self.name, self.ct, self.len, self.mem = k, name, ct, length, mem

    def __getitem__(self, i):
        if isinstance(self.mem, z3.ExprRef):
            return z3.Select(self.mem, toz(i))
        if is_sym(i):
            raise TypeError('symbolic index into concrete array')
        if 0 <= i < len(self.mem):
            return self.mem[i]
        raise Reject(f'{self.name}[{i}] outside the array')


class Arr2:
    """An array of pointers to rows"""
    def __init__(self, k, name, ct, length, mem, rowlen):
        self.k, self.name, self.ct, self.len, self.mem, self.rowlen = k, name, ct, length, mem, rowlen

    def __call__(self, r, i):
        if isinstance(self.mem, z3.ExprRef):
            return z3.Select(z3.Select(self.mem, toz(r)), toz(i))
        if 0 <= r < len(self.mem) and 0 <= i < len(self.mem[r]):
            return self.mem[r][i]
        raise Reject(f'{self.name}[{r}][{i}] outside the array')


class Rec:
    """f(p..., t): f(p...,0)=init(p...); f(p...,t+1)=step(p...,t,f(p...,t))"""
    def __init__(self, k, name, init, step, np, sort, bound=None):
        self.k, self.name, self.init, self.step, self.np = k, name, init, step, np
        self.sort = {'int': I, 'bool': B, 'f32': F32, 'f64': F64}[sort]
        self.f = z3.Function('rec_' + name, *([I] * (np + 1)), self.sort)
        self.memo = {}
        self.also = []          # further terms g(t) at which the definition is unfolded wherever it is unfolded at t

    def __call__(self, *args):
        if self.k.mode == 'sym':
            if len(args) == 1 and isinstance(args[0], int) and args[0] == 0:
                pass
            return self.f(*[toz(a) for a in args])
        if self.k.mode == 'bnd':
            return self._bnd(args)
        key = args
        if key in self.memo:
            return self.memo[key]
        p, t = args[:-1], args[-1]
        if t < 0:
            raise Reject('rec<0')
        if t > CONMAX:
            raise TooBig('rec')
        n = t
        while n > 0 and p + (n,) not in self.memo:
            n -= 1
        if p + (n,) not in self.memo:
            self.memo[p + (0,)] = self.init(*p)
            n = 0
        v = self.memo[p + (n,)]
        while n < t:
            v = self.step(*p, n, v)
            n += 1
            self.memo[p + (n,)] = v
        return v

    def _bnd(self, args):
        p, t = args[:-1], args[-1]
        if isinstance(t, int):
            key = tuple(str(x) for x in p) + (t,)
            if key not in self.memo:
                self.memo[key] = toz(self.init(*p)) if t <= 0 else toz(self.step(*p, t - 1, self._bnd(p + (t - 1,))))
            return self.memo[key]
        t = z3.simplify(toz(t))
        if z3.is_int_value(t):
            return self._bnd(p + (t.as_long(),))
        v = self._bnd(p + (0,))
        for n in range(1, self.k.K + 1):
            v = z3.If(t >= n, self._bnd(p + (n,)), v)
        return v

    def unfold(self, *args):
        """axiom instances at index t = args[-1] (symbolic mode)"""
        p, t = args[:-1], args[-1]
        nxt = z3.simplify(toz(t) + 1)
        return z3.Implies(toz(t) >= 0, self.f(*[toz(a) for a in p], nxt) == toz(self.step(*p, t, self.f(*[toz(a) for a in p], toz(t)))))

    def base(self, *p):
        return self.f(*[toz(a) for a in p], z3.IntVal(0)) == toz(self.init(*p))


class Out:
    def __init__(self, region, dims, at, val, when, running, tag, shift, rows, prog=(), final=None):
        self.final = final      # condition on the whole call under which the values are specified
        self.region, self.dims, self.at, self.val, self.when, self.tag, self.shift = region, dims, at, val, when, tag, shift
        self.running = [] if running is None else list(running) if isinstance(running, (list, tuple)) else [running]
        self.rows = rows
        self.prog = list(prog)


class Fail:
    def __init__(self, dims, cond, ident, att, phase):
        self.dims, self.cond, self.ident, self.att, self.phase = dims, cond, ident, att, phase


KNONE = (1 << 63) - 1


class K:
    """Execution context of one contract in one mode."""

    def __init__(self, sig, mode, inputs=None, rng=None, K=3, size=5):
        self.sig, self.mode, self.inputs, self.rng, self.K, self.S = sig, mode, inputs or {}, rng, K, size
        self.types = {a['name']: a for a in sig['args']}
        self.pre, self.outs, self.fails, self.recs, self.exprs, self.invs, self.lemmas = [], [], [], [], [], [], []
        self.posts = []
        self.regions, self.arrs = {}, {}
        self.lens = {}
        self.out_regions, self.inout, self.local = set(), set(), {}
        self.flags = {}
        self.scal = {}
        self.qpre = []
        self.instmul = []
        self.assumptions = []
        self.extra_index = []
        self._n = 0
        self.callees = {}
        self.order = None       # order(a, b): element a goes before element b, for library sorts
        self.concallees = {}
        self.loopfacts = []     # functions of iteration counts: instances of theorems
        self.quots = []         # functions of iteration counts: values a division may have
        self.tmaxes = []
        self.ptrarrs = {}
        self.retspec = None
        self.axioms = []
        self.hints = []
        self.mulgroups = []
        self.wild = mode == 'gen' and rng is not None and rng.random() < 0.12
        self.defs = []
    And = staticmethod(And); Or = staticmethod(Or); Not = staticmethod(Not); If = staticmethod(If); Implies = staticmethod(Implies)
    Iff = staticmethod(Iff); mul = staticmethod(mul); cast = staticmethod(cast); wrap = staticmethod(wrap); eq = staticmethod(eq)
    fop = staticmethod(fop); fcmp = staticmethod(fcmp); trange = staticmethod(trange)

    def ct(self, name):
        return self.types[name]['type']

    @property
    def symbolic(self):
        return self.mode in ('sym', 'bnd')

    # ---- declarations
    def req(self, c, name=None):
        if self.symbolic:
            if is_sym(c):
                self.pre.append(c)
            elif not c:
                raise ValueError('false precondition')
        elif not c:
            raise Reject(name or 'req')

    def _scalar(self, name, gen):
        if self.mode == 'gen':
            self.inputs[name] = gen()
        if self.mode in ('gen', 'con'):
            self.scal[name] = self.inputs[name]
        else:
            kind, n, s = CT[self.ct(name)]
            if kind == 'bool':
                v = z3.Bool(name)
            elif kind == 'float':
                v = z3.Const(name, fsort(n))
            else:
                v = z3.Int(name)
                lo, hi = trange(self.ct(name))
                self.pre.append(z3.And(v >= lo, v <= hi))
            self.scal[name] = v
        return self.scal[name]

    def size(self, name, hi=None, lo=0, gen=None):
        v = self._scalar(name, gen or (lambda: self.rng.choice([lo, lo + 1, lo + 2, lo + 3, self.rng.randint(lo, lo + self.S)])))
        self.req(And(v >= lo, v <= (LMAX if hi is None else hi)), name)
        return v

    def int(self, name, lo=None, hi=None, gen=None):
        if self.mode == 'gen' and gen is None:
            a, b = trange(self.ct(name))
            lo_ = a if lo is None else lo
            hi_ = b if hi is None else hi
            if is_sym(lo_, hi_):
                raise TypeError

            def gen():
                r = self.rng
                c = r.random()
                if c < 0.9:
                    x = r.randint(-4, 6)
                elif c < 0.95:
                    x = r.choice([lo_, hi_, lo_ + 1, hi_ - 1])
                else:
                    x = r.randint(lo_, hi_)
                return max(lo_, min(hi_, x))
        elif gen is not None and not callable(gen):
            g = gen
            gen = lambda: self.rng.randint(*g)
        if self.mode == 'gen' and self.wild and self.rng.random() < 0.1 and CT[self.ct(name)][0] == 'int':
            gen = lambda: self.rwild(*trange(self.ct(name)))
        v = self._scalar(name, gen)
        if lo is not None:
            self.req(v >= lo, name)
        if hi is not None:
            self.req(v <= hi, name)
        return v

    def bool(self, name):
        return self._scalar(name, lambda: bool(self.rng.randint(0, 1)))

    def float(self, name):
        return self._scalar(name, lambda: self.rfloat(self.ct(name)))

    def rfloat(self, ct, special=True):
        r = self.rng
        c = r.random()
        if c < 0.75 or not special:
            x = float(r.randint(-3, 5))
        elif c < 0.95:
            x = r.choice([0.5, -1.25, 2.75, 3.5, -0.0])
        else:
            x = r.choice([math.nan, math.inf, -math.inf, 1e30, -1e-30])
        return f32(x) if CT[ct][1] == 32 else x

    def rwild(self, lo, hi):
        """a value near a power of two, or near a power of two modulo another"""
        r = self.rng
        x = (1 << r.choice([7, 8, 15, 16, 31, 32, 32, 33, 40, 53, 63])) + r.randint(-2, 4)
        if r.random() < 0.4:
            x = -x
        return max(lo, min(hi, x))

    def rval(self, ct, i=0):
        kind, n, s = CT[ct]
        r = self.rng
        if kind == 'float':
            return self.rfloat(ct)
        if kind == 'bool':
            return r.randint(0, 1)
        lo, hi = trange(ct)
        c = r.random()
        if c < 0.9:
            return max(lo, min(hi, r.randint(-2, 6)))
        if c < 0.97:
            return r.choice([lo, hi, lo + 1, hi - 1, 1, 0])
        return r.randint(lo, hi)

    def _mkarr(self, name, length, gen, ct=None):
        ct = ct or self.ct(name)
        if self.mode == 'gen':
            if length > 4000:
                raise Reject('too long')
            if length < 0:
                raise Reject('negative length')
            old = self.inputs.get(name)
            self.inputs[name] = [gen(i) for i in range(length)]
        if self.mode in ('gen', 'con'):
            mem = self.inputs[name]
            if self.mode == 'con' and len(mem) < length:
                raise Reject(f'{name} shorter than {length}')
        else:
            kind, n, s = CT[ct]
            sort = fsort(n) if kind == 'float' else I
            mem = z3.Array('m0_' + name, I, sort)
            if kind != 'float':
                self._n += 1
                q = z3.Int(f'q{self._n}r')
                tl, th = trange(ct)
                self.pre.append(z3.ForAll([q], z3.And(mem[q] >= tl, mem[q] <= th), patterns=[mem[q]]))
        a = Arr(self, name, ct, length, mem)
        self.arrs[name] = a
        self.lens[name] = length
        self.req(And(length >= 0, length <= LMAX), f'len {name}')
        return a

    def arr(self, name, length, lo=None, hi=None, gen=None, each=None):
        """Input array of `length` elements; lo<=x<hi for every element when given."""
        if gen is None:
            if self.mode == 'gen' and (lo is not None or hi is not None):
                a, b = trange(self.ct(name))

                def gen(i):
                    l = a if lo is None else (lo(i) if callable(lo) else lo)
                    h = (b + 1) if hi is None else (hi(i) if callable(hi) else hi)
                    if h <= l:
                        raise Reject('empty range')
                    if h - l > 64 and self.rng.random() < 0.9:
                        c = max(l, min(h - 1, 0))
                        return self.rng.randint(max(l, c - 4), min(h - 1, c + 6))
                    return self.rng.randint(l, h - 1)
            else:
                gen = lambda i: self.rval(self.ct(name), i)
        elif not callable(gen):
            g = gen
            gen = lambda i: self.rng.randint(*g)
        if CT[self.ct(name)][0] == 'int':
            g0 = gen
            tl, th = trange(self.ct(name))
            gen = lambda i: self.rwild(tl, th) if self.wild and self.rng.random() < 0.2 else max(tl, min(th, g0(i)))
        a = self._mkarr(name, length, gen)
        if lo is not None or hi is not None:
            def body(i):
                c = []
                if lo is not None:
                    c.append(a[i] >= (lo(i) if callable(lo) else lo))
                if hi is not None:
                    c.append(a[i] < (hi(i) if callable(hi) else hi))
                return And(*c)
            self.req(self.forall(0, length, body, pat=lambda i: a[i]), name)
        if each is not None:
            self.req(self.forall(0, length, lambda i: each(i, a[i]), pat=lambda i: a[i]), name)
        return a

    def offsets(self, name, length, hi=None, maxcount=3, zero=False, gen=None):
        """Non-decreasing offsets of `length` entries, first >= 0 (0 when zero=True)."""
        if self.mode == 'gen' and gen is None:
            self._off = None

            def gen(i):
                if i == 0:
                    self._off = 0 if zero else self.rng.choice([0, 0, 1, 2])
                else:
                    self._off += self.rng.randint(0, maxcount)
                return self._off
        a = self._mkarr(name, length, gen)
        if self.mode == 'sym':
            i, j = z3.Ints('oi oj')
            n = toz(length)
            self.pre.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), a[i] <= a[j]), patterns=[z3.MultiPattern(a[i], a[j])]))
            b = a[i] >= 0
            if hi is not None:
                b = z3.And(b, a[i] <= toz(hi))
            else:
                b = z3.And(b, a[i] <= min(LMAX, trange(self.ct(name))[1]))
            self.pre.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), b), patterns=[a[i]]))
            if zero:
                self.pre.append(z3.Implies(n > 0, a[z3.IntVal(0)] == 0))
        else:
            self.req(self.forall(0, length, lambda i: And(a[i] >= 0, a[i] <= (hi if hi is not None else min(LMAX, trange(self.ct(name))[1])))), name)
            if self.mode == 'bnd':
                self.req(self.forall(0, length - 1, lambda i: a[i] <= a[i + 1]), name)
            else:
                self.req(all(a[i] <= a[i + 1] for i in range(length - 1)), name)
            if zero:
                self.req(Implies(length > 0, a[0] == 0) if self.symbolic else (length <= 0 or a[0] == 0))
        return a

    def startstops(self, starts, stops, n, hi=None, maxcount=3, cap=None):
        """0 <= starts[i] <= stops[i] (< = hi)."""
        cap = min(LMAX, trange(self.ct(starts))[1]) if cap is None else cap
        H = cap if hi is None else hi

        def gs(i):
            h = 6 if hi is None else hi
            return self.rng.randint(0, max(0, min(h, 6)))
        s = self.arr(starts, n, gen=gs)

        def ge(i):
            h = s[i] + maxcount if hi is None else min(hi, s[i] + maxcount)
            if h < s[i]:
                raise Reject('ss')
            return self.rng.randint(s[i], h)
        e = self.arr(stops, n, gen=ge)
        self.req(self.forall(0, n, lambda i: And(s[i] >= 0, s[i] <= e[i], e[i] <= H), pat=lambda i: s[i]), starts)
        if self.mode == 'sym':
            self.req(self.forall(0, n, lambda i: And(s[i] >= 0, s[i] <= e[i], e[i] <= H), pat=lambda i: e[i]), stops)
        return s, e

    def out_arr(self, name, length, inout=False, gen=None, lo=None, hi=None):
        if inout:
            a = self.arr(name, length, gen=gen, lo=lo, hi=hi)
            self.inout.add(name)
        else:
            a = self._mkarr(name, length, gen or (lambda i: self.rval(self.ct(name))))
        self.out_regions.add(name)
        return a

    def arr2(self, name, nrows, rowlen=None, gen=None, maxlen=5):
        """T** argument: nrows row pointers; rowlen(r): elements of row r (unknown when None); gen(r, n): a row"""
        ct = self.ct(name)
        if self.mode == 'gen':
            ls = [rowlen(r) if rowlen else self.rng.randint(1, maxlen) for r in range(nrows)]
            self.inputs[name] = [gen(r, l) if gen else [self.rval(ct) for _ in range(l)] for r, l in enumerate(ls)]
        if self.mode in ('gen', 'con'):
            mem = self.inputs[name]
            if len(mem) < nrows:
                raise Reject(name)
            rl = lambda r: len(mem[r]) if 0 <= r < len(mem) else 0
            if rowlen:
                for r in range(nrows):
                    if len(mem[r]) < rowlen(r):
                        raise Reject(name)
        else:
            kind, n, s = CT[ct]
            sort = fsort(n) if kind == 'float' else I
            mem = z3.Const('m0_' + name, z3.ArraySort(I, z3.ArraySort(I, sort)))
            if kind != 'float':
                q, r = z3.Ints('q2a q2b')
                tl, th = trange(ct)
                self.pre.append(z3.ForAll([q, r], z3.And(mem[q][r] >= tl, mem[q][r] <= th), patterns=[mem[q][r]]))
            if rowlen:
                rl = rowlen
            else:
                f = z3.Function('rowlen_' + name, I, I)
                q = z3.Int('q2a')
                self.pre.append(z3.ForAll([q], z3.And(f(q) >= 0, f(q) <= LMAX), patterns=[f(q)]))
                rl = lambda r: f(toz(r))
        a = Arr2(self, name, ct, nrows, mem, rl)
        self.arrs[name] = a
        self.lens[name] = nrows
        return a

    def ghost_len(self, name, gen):
        """length of the buffer `name`, not passed to the function"""
        if self.symbolic:
            L = z3.Int('len_' + name)
            self.pre.append(z3.And(L >= 0, L <= LMAX))
            return L
        if self.mode == 'con':
            return len(self.inputs[name])
        return gen()

    def ghost(self, name, con, lo=0, hi=LMAX):
        """a specification-only integer; con(): a value it can have"""
        if self.symbolic:
            g = z3.Int('ghost_' + name)
            self.pre.append(z3.And(g >= lo, g <= hi))
            return g
        return con()

    def define(self, name, con, ax, arity=1, dom=None):
        """a function defined by a property: ax(f, *args) (a list of formulas) holds for all args in dom.
        con computes it; every concrete evaluation is checked against ax."""
        if self.symbolic:
            f = z3.Function('def_' + name, *([I] * arity), I)
            self.defs.append((f, ax, dom, arity))
            vs = [z3.Int(f'dv{d}') for d in range(arity)]
            for c in ax(f, *vs):
                if dom is not None:
                    c = Implies(dom(*vs), c)
                self.axioms.append(z3.ForAll(vs, toz(c), patterns=[f(*vs)]))
            return f
        memo = {}

        def g(*a):
            if a not in memo:
                memo[a] = con(*a)
                if dom is None or dom(*a):
                    for c in ax(g, *a):
                        assert c, (name, a)
            return memo[a]
        return g

    # ---- logic
    def forall(self, lo, hi, body, pat=None):
        if not self.symbolic:
            if hi - lo > CONMAX:
                raise TooBig('range')
            return all(body(i) for i in range(lo, hi))
        if self.mode == 'bnd':
            out = []
            l = z3.simplify(toz(lo))
            base = l.as_long() if z3.is_int_value(l) else None
            for d in range(self.K + 1):
                i = (base + d) if base is not None else toz(lo) + d
                out.append(Implies(toz(i) < toz(hi), body(i)))
            return And(*out)
        self._n += 1
        i = z3.Int(f'q{self._n}')
        b = toz(body(i))
        kw = {}
        if pat is not None:
            p = pat(i)
            kw['patterns'] = [z3.MultiPattern(*p) if isinstance(p, (tuple, list)) else p]
        return z3.ForAll([i], z3.Implies(z3.And(i >= toz(lo), i < toz(hi)), b), **kw)

    def forall2(self, lo, hi, lo2, hi2, body, pat=None):
        if not self.symbolic:
            return all(body(i, j) for i in range(lo, hi) for j in range(lo2(i), hi2(i)))
        if self.mode == 'bnd':
            return self.forall(lo, hi, lambda i: self.forall(lo2(i), hi2(i), lambda j: body(i, j)))
        self._n += 1
        i, j = z3.Ints(f'q{self._n}a q{self._n}b')
        kw = {}
        if pat is not None:
            p = pat(i, j)
            kw['patterns'] = [z3.MultiPattern(*p) if isinstance(p, (tuple, list)) else p]
        return z3.ForAll([i, j], z3.Implies(z3.And(i >= toz(lo), i < toz(hi), j >= toz(lo2(i)), j < toz(hi2(i))), toz(body(i, j))), **kw)

    def rec(self, name, init, step, params=0, sort='int'):
        r = Rec(self, name, init if callable(init) else (lambda *p: init), step, params, sort)
        self.recs.append(r)
        return r

    def unsigned(self, name):
        return not CT[self.ct(name)][2]

    def count(self, name, sel, const=None):
        """number of i < t with sel(i); with monotonicity and bound lemmas.
        const=1 (0): every (no) position is selected, because of the element type"""
        c = self.rec(name, 0, lambda i, v: v + If(sel(i), 1, 0))
        self.mono(c)
        if const is not None:
            self.lemma(f'{name} is constant', lambda t: c(t) == (t if const else 0), pat=lambda t: c(t))
        self.lemma(name + ' in [0,t]', lambda t: And(c(t) >= 0, c(t) <= t), pat=lambda t: c(t))
        return c

    def psum(self, name, term, hi=None, upto=None):
        """prefix sums of a nonnegative term"""
        c = self.rec(name, 0, lambda i, v: v + term(i))
        self.mono(c, upto)
        self.lemma(name + '>=0', lambda t: c(t) >= 0, pat=lambda t: c(t), upto=upto)
        return c

    def mono(self, f, upto=None):
        """i<=j => f(i)<=f(j)  (0<=i<=j<=upto). By induction from f(t)<=f(t+1)."""
        if self.mode != 'sym':
            return
        i, j = z3.Ints('mi mj')
        cond = [i >= 0, i <= j]
        if upto is not None:
            cond.append(j <= toz(upto))
        self.lemmas.append(dict(name=f'{f.name} is non-decreasing', kind='mono', f=f, upto=upto,
                                ax=z3.ForAll([i, j], z3.Implies(z3.And(*cond), f(i) <= f(j)), patterns=[z3.MultiPattern(f(i), f(j))])))

    def mono2(self, f, plo=0, phi=None):
        """0<=i<=j => f(p,i)<=f(p,j)"""
        if self.mode != 'sym':
            return
        p, i, j = z3.Ints('mp mi mj')
        cond = [i >= 0, i <= j, p >= toz(plo)]
        if phi is not None:
            cond.append(p < toz(phi))
        self.lemmas.append(dict(name=f'{f.name} is non-decreasing', kind='mono2', f=f, upto=None, plo=plo, phi=phi,
                                ax=z3.ForAll([p, i, j], z3.Implies(z3.And(*cond), f(p, i) <= f(p, j)), patterns=[z3.MultiPattern(f(p, i), f(p, j))])))

    def monon(self, f):
        """0<=i<=j => f(p...,i)<=f(p...,j), for all p"""
        if self.mode != 'sym':
            return
        ps = z3.Ints(' '.join(f'mp{d}' for d in range(f.np)))
        i, j = z3.Ints('mi mj')
        self.lemmas.append(dict(name=f'{f.name} is non-decreasing', kind='monon', f=f, upto=None,
                                ax=z3.ForAll(list(ps) + [i, j], z3.Implies(z3.And(i >= 0, i <= j), f(*ps, i) <= f(*ps, j)), patterns=[z3.MultiPattern(f(*ps, i), f(*ps, j))])))

    def lemma(self, name, P, pat, upto=None):
        """forall 0<=t(<=upto): P(t), proved by induction on t."""
        if self.mode != 'sym':
            return
        t = z3.Int('lt')
        cond = [t >= 0]
        if upto is not None:
            cond.append(t <= toz(upto))
        p = pat(t)
        self.lemmas.append(dict(name=name, kind='ind', P=P, upto=upto,
                                ax=z3.ForAll([t], z3.Implies(z3.And(*cond), toz(P(t))), patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p])))

    def lemma2(self, name, P, pat, plo, phi, upto=None):
        """forall plo<=p<phi, 0<=t(<=upto): P(p,t), by induction on t for fixed p."""
        if self.mode != 'sym':
            return
        p, t = z3.Ints('lp lt')
        cond = [t >= 0, p >= toz(plo)]
        if phi is not None:
            cond.append(p < toz(phi))
        if upto is not None:
            cond.append(t <= toz(upto))
        pt = pat(p, t)
        self.lemmas.append(dict(name=name, kind='ind2', P=P, upto=upto, plo=plo, phi=phi,
                                ax=z3.ForAll([p, t], z3.Implies(z3.And(*cond), toz(P(p, t))), patterns=[z3.MultiPattern(*pt) if isinstance(pt, tuple) else pt])))

    def theorem(self, name, goals, ax):
        """an axiom ax about spec functions, justified by goals(): [(hypotheses, conclusion)], each discharged on its own"""
        if self.mode == 'sym':
            self.lemmas.append(dict(name=name, kind='custom', goals=goals, ax=ax, upto=None))

    # ---- effects
    def out(self, region, n=None, val=None, at=None, when=None, lo=0, running=None, tag=None, dims=None, shift=(0,), rows=False, prog=(), final=None):
        """region[at(v)] == val(v) for lo<=v<n (dims for nested), where when(v).
        n=None: a single cell region[at()] (default 0) == val(); running(t...) is its value during loops.
        prog: functions of iteration counts bounding the first index already written."""
        if dims is None:
            dims = [] if n is None else [(lo, n)]
        if at is not None and not callable(at):
            c = at
            at = lambda *v: c
        if not callable(val):
            cv = val
            val = lambda *v: cv
        self.outs.append(Out(region, dims, at, val, when, running, tag or region, shift, rows, prog, final))

    def keep(self, region, n, lo=0):
        """frame: region[lo:n] is left as it was"""
        a0 = self.arrs[region]
        self.inout.add(region)
        self.out(region, n, lo=lo, val=lambda i: a0[i], tag=region + ' outside the destination')

    def cell(self, region, final, running=None):
        self.out(region, None, val=lambda: final, at=0, running=running)

    def fail(self, cond, ident, att, n=None, lo=0, dims=None, phase=None):
        """error event: cond(v...) at any v in dims makes the call fail, reporting (ident, att).
        Events are ordered by phase, then by position."""
        if dims is None:
            dims = [] if n is None else [(lo, n)]
        if phase is None:
            phase = 0 if dims else -1
        mk = lambda f: f if callable(f) else (lambda *v: f)
        self.fails.append(Fail(dims, mk(cond), mk(ident), mk(att), phase))

    def ret(self, v):
        self.retspec = v

    def alloc(self, fresh, requested, gen=None):
        """allocation (operator new[], akv_alloc): at most one per call; it returns the whole buffer `fresh`, whose
        size is what was asked for, and the number of bytes goes to the cell `requested`"""
        n = self.ghost_len(fresh, gen or (lambda: 0))
        kind, bits, _ = CT[self.ct(fresh)]
        es = 1 if kind == 'bool' else bits // 8
        self.out_arr(fresh, n)
        self.out_arr(requested, 1)

        def sym(ex, ins, c):
            if ex.allocated or ex.inloop():
                raise Unsupported('more than one allocation')
            ex.allocated = True
            b = ex.val(ins.args[-1][1], ins.args[-1][0]).S()
            ex.oblige('memory', f'allocation of a sensible size ({ex.where(ins)})', ex.guard, [And(toz(b) >= 0, toz(b) <= LMAX * es, toz(b) % es == 0)])
            ex.assume(Implies(ex.guard, toz(n) * es == toz(b)))
            ex.put(True, requested, 0, ex.intv(b, 64))
            return ex.ptrv(fresh)

        def con(it, ins, c):
            b = it.val(ins.args[-1][1], ins.args[-1][0])
            if it.allocs or b < 0 or b > 1 << 24:
                raise Reject('allocation')
            it.allocs.append(b)
            it.mem[requested][0] = b
            it.mem[fresh] = [it.k.junk(fresh, i) for i in range(b // es)]
            return (fresh, 0)
        for c in ('_Znam', 'akv_alloc', 'awkward_malloc'):
            self.callees[c], self.concallees[c] = sym, con
        return n, es

    def junk(self, name, i):
        kind, bits, sg = CT[self.ct(name)]
        return i % 2 if kind == 'bool' else float(-i - 3) if kind == 'float' else wrap(91 + 7 * i, self.ct(name))

    def expr(self, *fs):
        """candidate values for loop-carried scalars, as functions of iteration counts"""
        self.exprs.extend(fs)

    def inv(self, f, name=None):
        """candidate invariant f(mem, *ts) where mem(region,i) is the current contents"""
        self.invs.append((f, name or f'inv{len(self.invs)}'))

    def post(self, f, name):
        """extra postcondition f(mem) on success"""
        self.posts.append((f, name))

    def hint(self, *fs):
        """tuples (functions of iteration counts) at which quantified hypotheses are instantiated"""
        self.hints.extend(fs)

    def mulrows(self, C, loop=(), sk=(), consts=()):
        """positions p used as p*C + offset: loop(t...) in loops, sk(v...) for quantified variables.
        Facts of multiplication (a<b and C>=0 give a*C+C <= b*C) are instantiated for every pair of them."""
        if self.mode == 'sym':
            self.mulgroups.append((C, list(loop), list(sk), list(consts)))

    def trips(self, *dims):
        """loop nest bounds: (lo,hi) per depth, for candidate t<=hi-lo"""
        self.tmaxes.append(dims)

    # error specification, concrete
    def first_failures(self):
        """concrete: set of admissible (ident, att) reports; empty set when the call must succeed"""
        for ph in sorted({f.phase for f in self.fails}):
            fs = [f for f in self.fails if f.phase == ph]
            r = {(f.ident(), f.att()) for f in fs if not f.dims and f.cond()}
            if r:
                return r
            ev = []
            for f in fs:
                if f.dims:
                    for v in enum_dims(f.dims):
                        if f.cond(*v):
                            ev.append((v, f.ident(*v), f.att(*v)))
            if ev:
                m = min(v[0] for v, _, _ in ev)
                ev = [e for e in ev if e[0][0] == m]
                two = [e[0][1] for e in ev if len(e[0]) > 1]
                if two:
                    ev = [e for e in ev if len(e[0]) == 1 or e[0][1] == min(two)]
                return {(a, b) for _, a, b in ev}
        return set()


def enum_dims(dims, vs=()):
    if len(vs) == len(dims):
        yield vs
        return
    lo, hi = dimrange(dims[len(vs)], vs)
    if hi - lo > CONMAX:
        raise TooBig('range')
    for i in range(lo, hi):
        yield from enum_dims(dims, vs + (i,))


def dimrange(d, vs):
    lo, hi = d
    lo = lo(*vs) if callable(lo) else lo
    hi = hi(*vs) if callable(hi) else hi
    return lo, hi


def ite(c, a, b):
    """If with lazily evaluated branches (concretely a branch may be undefined)"""
    if isinstance(c, z3.ExprRef):
        return z3.If(c, toz(a()), toz(b()))
    return a() if c else b()
