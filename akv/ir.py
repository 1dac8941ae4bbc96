"""Textual LLVM IR (clang 18, opaque pointers) -> small Python object model.

Only what clang emits for the code under contract is recognised; anything else
raises Unsupported when it is *executed*, never silently skipped.
"""
import re


class Unsupported(Exception):
    pass


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'flags', 'extra', 'line', 'loc')

    def __init__(self, op, res, ty=None, args=(), flags=(), extra=None, line=''):
        self.op, self.res, self.ty, self.args = op, res, ty, list(args)
        self.flags, self.extra, self.line = frozenset(flags), extra, line
        self.loc = None

    def __repr__(self):
        return self.line.strip()


class Block:
    __slots__ = ('name', 'phis', 'instrs', 'term', 'succs', 'preds')

    def __init__(self, name):
        self.name, self.phis, self.instrs, self.term = name, [], [], None
        self.succs, self.preds = [], []


class Loop:
    def __init__(self, header, body, latches):
        self.header, self.body, self.latches = header, body, latches
        self.parent, self.children, self.depth = None, [], 1


class Function:
    def __init__(self, name, params, attrs, ret):
        self.name, self.params, self.ret = name, params, ret   # params: [(type, name, attrs)]
        self.blocks, self.order, self.entry = {}, [], None
        self.loops, self.rpo = {}, []

    def normalize(self):
        """invoke -> call and branch to the normal continuation (calls are assumed not to throw);
        inttoptr of ptrtoint(p) + x -> byte-wise getelementptr"""
        defs = {}
        for b in self.blocks.values():
            # units: an error ends the call, with the parameter `raised` set
            n = next((j for j, i in enumerate(b.instrs) if i.op == 'call' and re.search(r'@akv_raise\(', i.line)), None)
            if n is not None and b.term.op == 'unreachable' and any(p[1] == 'raised' for p in self.params):
                i64 = T('int', 64)
                st = Instr('store', None, i64, [('i', 1), ('v', 'raised')], line='store i64 1, ptr %raised')
                st.loc, rt = b.instrs[n].loc, Instr('ret', None, T('void'), [], line='ret void')
                rt.loc = b.term.loc
                b.instrs, b.term = b.instrs[:n] + [st], rt
            if b.term is not None and b.term.op == 'invoke':
                t = b.term
                t.op = 'call'
                b.instrs.append(t)
                b.term = Instr('br', None, None, [t.extra['dest'][0]], line='br ' + t.line)
                b.term.loc = t.loc
            for i in b.instrs:
                if i.res:
                    defs[i.res] = i

        def address(v, depth=0):
            """(pointer, [summands]) of an integer that is a pointer plus something"""
            d = defs.get(v[1]) if v[0] == 'v' and depth < 12 else None
            if d is None:
                return None
            if d.op == 'ptrtoint':
                return d.args[0], []
            if d.op == 'add':
                for x, y in ((d.args[0], d.args[1]), (d.args[1], d.args[0])):
                    r = address(x, depth + 1)
                    if r is not None:
                        return r[0], r[1] + [y]
            return None
        i64 = T('int', 64)
        for b in self.blocks.values():
            out = []
            for i in b.instrs:
                r = address(i.args[0]) if i.op == 'inttoptr' else None
                if r is None:
                    out.append(i)
                    continue
                cur, n = r[0], 0
                for y in r[1] or [('i', 0)]:
                    n += 1
                    res = i.res if n == max(1, len(r[1])) else f'{i.res}.p{n}'
                    g = Instr('getelementptr', res, T('int', 8), [cur], extra=[(i64, y)], line=i.line)
                    g.loc = i.loc
                    out.append(g)
                    cur = ('v', res)
            b.instrs = out

    def news(self):
        """calls that allocate memory, in the order of the blocks"""
        return [i for b in self.rpo for i in self.blocks[b].instrs if i.op == 'call' and i.extra['callee'] == '@_Znwm']

    def pointed(self):
        """scalar local variables whose address takes part in pointer arithmetic"""
        if getattr(self, '_pointed', None) is None:
            out = set()
            for b in self.blocks.values():
                for ph in b.phis:
                    out |= {v[1] for v, _ in ph.extra if v[0] == 'v'}
                for i in b.instrs:
                    if i.op in ('getelementptr', 'ptrtoint', 'select'):
                        out |= {v[1] for v in i.args if v[0] == 'v'}
            self._pointed = out
        return self._pointed

    def finish(self):
        self.normalize()
        for b in self.blocks.values():
            b.succs = successors(b.term)
        for b in self.blocks.values():
            for s in b.succs:
                self.blocks[s].preds.append(b.name)
        self._rpo()
        if len(self.reach) != len(self.blocks):
            self.blocks = {n: b for n, b in self.blocks.items() if n in self.reach}
            self.order = [n for n in self.order if n in self.reach]
            for b in self.blocks.values():
                b.preds = [q for q in b.preds if q in self.reach]
                for ph in b.phis:
                    ph.extra = [(v, q) for v, q in ph.extra if q in self.reach]
        self._loops()

    def _rpo(self):
        seen, out = set(), []
        stack = [(self.entry, iter(self.blocks[self.entry].succs))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                out.append(n)
                stack.pop()
        self.rpo = out[::-1]
        self.reach = seen

    def _loops(self):
        # dominators (iterative)
        idx = {b: i for i, b in enumerate(self.rpo)}
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.blocks[b].preds:
                    if p in idom and p in idx:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in self.rpo:
            for s in self.blocks[b].succs:
                if idx.get(s, 1 << 30) <= idx[b]:
                    if not dom(s, b):
                        raise Unsupported('irreducible control flow')
                    loops.setdefault(s, []).append(b)
        self.loops = {}
        for h, latches in loops.items():
            body = {h}
            work = list(latches)
            while work:
                n = work.pop()
                if n in body or n not in idx:
                    continue
                body.add(n)
                work.extend(p for p in self.blocks[n].preds if p in idx)
            self.loops[h] = Loop(h, body, latches)
        ls = sorted(self.loops.values(), key=lambda l: len(l.body))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.body and m is not l:
                    l.parent = m
                    m.children.append(l)
                    break
        for l in ls:
            d, p = 1, l.parent
            while p:
                d, p = d + 1, p.parent
            l.depth = d
        self.idx = idx
        # topological order where every loop body is contiguous and inner exits come after it
        self.topo = self._topo()

    def _topo(self):
        """Order of blocks for one forward pass: reverse post-order of the CFG
        without back edges, which is a topological order of the acyclic part."""
        return list(self.rpo)


def successors(term):
    if term.op == 'br':
        return [term.args[0]] if len(term.args) == 1 else [term.args[1], term.args[2]]
    if term.op == 'switch':
        return [term.extra[0]] + [l for _, l in term.extra[1]]
    if term.op == 'invoke':
        return list(term.extra['dest'])
    return []


# ---------------------------------------------------------------- types
class T:
    """Type: kind in int,ptr,float,void,struct,array,named,vector"""
    __slots__ = ('k', 'n', 'sub')

    def __init__(self, k, n=0, sub=None):
        self.k, self.n, self.sub = k, n, sub

    def __repr__(self):
        return f'{self.k}{self.n or ""}'

    def __eq__(self, o):
        return isinstance(o, T) and (self.k, self.n) == (o.k, o.n) and self.sub == o.sub

    def __hash__(self):
        return hash((self.k, self.n))


TOK = re.compile(r'"(?:[^"\\]|\\.)*"|[%@][-\w.$]+|[%@]"[^"]*"|c"(?:[^"\\]|\\.)*"|![\w.]*(?:\([^)]*\))?|#\d+|[-+]?\d+\.\d+(?:[eE][-+]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|<\{|\}>|[(){}\[\]<>,=*|]')


def tokenize(s):
    out, i = [], 0
    for m in TOK.finditer(s):
        out.append(m.group(0))
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        v = self.next()
        if v != s:
            raise Unsupported(f'parse: expected {s} got {v} in {" ".join(self.t)}')

    def type(self):
        v = self.next()
        if v == 'ptr':
            t = T('ptr')
            if self.peek() == 'addrspace':
                raise Unsupported('addrspace')
        elif v == 'void':
            t = T('void')
        elif re.match(r'i\d+$', v):
            t = T('int', int(v[1:]))
        elif v in ('float', 'double', 'x86_fp80', 'half'):
            t = T('float', {'float': 32, 'double': 64, 'x86_fp80': 80, 'half': 16}[v])
        elif v in ('label', 'metadata', 'token'):
            t = T(v)
        elif v[0] == '%':
            t = T('named', v[1:].strip('"'))
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            s = self.type()
            self.expect(']')
            t = T('array', n, s)
        elif v == '<':
            n = int(self.next())
            self.expect('x')
            s = self.type()
            self.expect('>')
            t = T('vector', n, s)
        elif v in ('{', '<{'):
            subs = []
            while self.peek() not in ('}', '}>'):
                subs.append(self.type())
                self.accept(',')
            self.next()
            t = T('struct', 0, tuple(subs))
        else:
            raise Unsupported(f'type {v}')
        while self.peek() == '(' and t.k in ('void', 'int', 'ptr', 'float', 'named', 'struct') and False:
            pass
        return t

    def attrs(self):
        """skip parameter/call attributes, return the list of names"""
        out = []
        while True:
            p = self.peek()
            if p in ('noundef', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias',
                     'nonnull', 'writable', 'dead_on_unwind', 'returned', 'inreg', 'immarg', 'nofree', 'noreturn', 'nounwind', 'inalloca',
                     'swiftself', 'allocptr', 'nest', 'allocalign'):
                out.append(self.next())
            elif p in ('sret', 'byval', 'elementtype', 'byref', 'dereferenceable', 'dereferenceable_or_null', 'preallocated'):
                out.append(self.next())
                self.expect('(')
                d = 1
                while d:
                    v = self.next()
                    d += v == '('
                    d -= v == ')'
            elif p == 'align':
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif p is not None and re.match(r'memory$|range$|nofpclass$', p):
                self.next()
                self.expect('(')
                while self.next() != ')':
                    pass
            else:
                return out

    def value(self, ty):
        v = self.next()
        if v[0] == '%':
            return ('v', v[1:].strip('"'))
        if v[0] == '@':
            return ('g', v[1:].strip('"'))
        if v == 'null':
            return ('null',)
        if v == 'true':
            return ('i', 1)
        if v == 'false':
            return ('i', 0)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'getelementptr':
            self.accept('inbounds')
            self.expect('(')
            bt = self.type()
            self.expect(',')
            args = []
            while True:
                t = self.type()
                args.append((t, self.value(t)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('cgep', bt, args)
        if v in ('{', '[', '<', '<{'):
            d = 1
            depth = [v]
            while d:
                w = self.next()
                if w in ('{', '[', '<', '<{', '('):
                    d += 1
                elif w in ('}', ']', '>', '}>', ')'):
                    d -= 1
            return ('agg',)
        if ty is not None and ty.k == 'int' and re.match(r'-?\d+$', v):
            return ('i', int(v))
        if ty is not None and ty.k == 'float':
            return ('f', v)
        raise Unsupported(f'value {v} of {ty}')


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'}


def parse_call(p, res, line, op):
    while p.peek() in ('fastcc', 'ccc', 'coldcc') or p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn'):
        p.next()
    p.attrs()
    ty = p.type()
    if p.peek() == '(':                      # function type spelled out: ret (args...) @f
        d = 0
        while True:
            v = p.next()
            d += v == '('
            d -= v == ')'
            if d == 0:
                break
    callee = p.next()
    p.expect('(')
    args = []
    while p.peek() != ')':
        t = p.type()
        if t.k == 'metadata':
            d = 0
            while not (d == 0 and p.peek() in (',', ')')):
                v = p.next()
                d += v == '('
                d -= v == ')'
            args.append((t, ('meta',)))
        else:
            at = p.attrs()
            args.append((t, p.value(t), tuple(at)))
        p.accept(',')
    p.expect(')')
    ins = Instr(op, res, ty, [(a[0], a[1]) for a in args], extra={'callee': callee, 'argattrs': [a[2] if len(a) > 2 else () for a in args]}, line=line)
    if op == 'invoke':
        while p.peek() != 'to':
            p.next()
        p.next(); p.expect('label'); a = p.next()[1:].strip('"')
        p.expect('unwind'); p.expect('label'); b = p.next()[1:].strip('"')
        ins.extra['dest'] = (a, b)
    return ins


def parse_instr(line, blocktext=None):
    s = line.strip()
    dbg = re.search(r'!dbg !(\d+)', s)
    s2 = re.sub(r', ![\w.]+ ![\w]+', '', s)
    p = P(tokenize(s2))
    res = None
    if p.peek(1) == '=':
        res = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    ins = None
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        flags = []
        while p.peek() in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint'):
            flags.append(p.next())
        ty = p.type()
        a = p.value(ty); p.expect(','); b = p.value(ty)
        ins = Instr(op, res, ty, [a, b], flags, line=s)
    elif op == 'fneg':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        ty = p.type()
        ins = Instr(op, res, ty, [p.value(ty)], line=s)
    elif op == 'freeze':
        ty = p.type()
        ins = Instr(op, res, ty, [p.value(ty)], line=s)
    elif op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        ty = p.type(); a = p.value(ty); p.expect('to'); t2 = p.type()
        ins = Instr(op, res, t2, [a], extra=ty, line=s)
    elif op in ('icmp', 'fcmp'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
            p.next()
        pred = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        ins = Instr(op, res, ty, [a, b], extra=pred, line=s)
    elif op == 'select':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
        ins = Instr(op, res, t, [c, a, b], line=s)
    elif op == 'phi':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        ty = p.type(); inc = []
        while p.accept('['):
            v = p.value(ty); p.expect(','); l = p.next()[1:].strip('"'); p.expect(']'); inc.append((v, l))
            p.accept(',')
        ins = Instr(op, res, ty, [], extra=inc, line=s)
    elif op == 'load':
        vol = p.accept('volatile')
        if p.peek() == 'atomic':
            raise Unsupported('atomic')
        ty = p.type(); p.expect(','); p.type(); a = p.value(None)
        ins = Instr(op, res, ty, [a], line=s)
    elif op == 'store':
        vol = p.accept('volatile')
        ty = p.type(); v = p.value(ty); p.expect(','); p.type(); a = p.value(None)
        ins = Instr(op, None, ty, [v, a], line=s)
    elif op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        ty = p.type(); p.expect(','); p.type(); base = p.value(None); idx = []
        while p.accept(','):
            t = p.type(); idx.append((t, p.value(t)))
        ins = Instr(op, res, ty, [base], extra=idx, line=s)
    elif op == 'alloca':
        ty = p.type(); n = None
        if p.accept(','):
            if p.peek() != 'align':
                t = p.type(); n = p.value(t)
        ins = Instr(op, res, ty, [], extra=n, line=s)
    elif op == 'br':
        if p.accept('label'):
            ins = Instr(op, None, None, [p.next()[1:].strip('"')], line=s)
        else:
            p.type(); c = p.value(None) if p.peek()[0] == '%' else p.value(T('int', 1))
            p.expect(','); p.expect('label'); a = p.next()[1:].strip('"'); p.expect(','); p.expect('label'); b = p.next()[1:].strip('"')
            ins = Instr(op, None, None, [c, a, b], line=s)
    elif op == 'switch':
        ty = p.type(); v = p.value(ty); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"'); p.expect('[')
        cases = []
        while not p.accept(']'):
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); cases.append((c[1], p.next()[1:].strip('"')))
        ins = Instr(op, None, ty, [v], extra=(d, cases), line=s)
    elif op == 'ret':
        ty = p.type()
        ins = Instr(op, None, ty, [] if ty.k == 'void' else [p.value(ty)], line=s)
    elif op == 'unreachable':
        ins = Instr(op, None, line=s)
    elif op in ('call', 'invoke'):
        ins = parse_call(p, res, s, op)
    elif op in ('extractvalue', 'insertvalue'):
        ty = p.type(); a = p.value(ty); args = [a]
        if op == 'insertvalue':
            p.expect(','); t2 = p.type(); args.append(p.value(t2))
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        ins = Instr(op, res, ty, args, extra=idx, line=s)
    else:
        ins = Instr('?' + op, res, line=s)
    ins.loc = dbg.group(1) if dbg else None
    return ins


TERM = {'br', 'switch', 'ret', 'unreachable', 'invoke', '?resume'}


class Module:
    def __init__(self, text):
        self.functions, self.structs, self.globals, self._raw = {}, {}, {}, {}
        self.declared, self._calls = set(), None
        self.lines = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', text, re.M):
            self.lines[m.group(1)] = int(m.group(2))
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                nm = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln).group(1).strip('"')
                self._raw[nm] = (ln, lines[i + 1:j])
                i = j
            elif ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                self.structs[nm[1:].strip('"')] = rest
            elif ln.startswith('@'):
                nm = ln.split(' = ', 1)[0][1:].strip('"')
                self.globals[nm] = ln.split(' = ', 1)[1]
            elif ln.startswith('declare '):
                nm = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                if nm:
                    self.declared.add(nm.group(1).strip('"'))
            i += 1
        self._st = {}

    def struct(self, name):
        if name not in self._st:
            t = self.structs[name]
            if t.strip() == 'opaque':
                raise Unsupported('opaque struct')
            self._st[name] = P(tokenize(t)).type().sub
        return self._st[name]

    def calls(self):
        """function -> functions it calls"""
        if self._calls is None:
            self._calls = {n: {c.strip('"') for ln in x[1] for c in re.findall(r'(?:call|invoke) [^\n]*?@("[^"]*"|[-\w.$]+)\(', ln)} for n, x in self._raw.items()}
        return self._calls

    def head(self, name):
        return self._raw[name][0]

    def has(self, name):
        return name in self._raw

    def function(self, name):
        if name in self.functions:
            return self.functions[name]
        head, body = self._raw[name]
        m = re.search(r'@("[^"]*"|[-\w.$]+)\((.*)$', head)
        rest = m.group(2)
        d, k = 1, 0
        while d:
            d += rest[k] == '('
            d -= rest[k] == ')'
            k += 1
        p = P(tokenize(rest[:k - 1]))
        params = []
        while p.peek() is not None:
            t = p.type()
            at = p.attrs()
            params.append((t, p.next()[1:].strip('"'), at))
            p.accept(',')
        rp = P(tokenize(head[:m.start()]))
        rp.next()
        while rp.peek() in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'noundef', 'zeroext', 'signext', 'hidden', 'private', 'available_externally', 'fastcc', 'nonnull', 'noalias', 'local_unnamed_addr', 'unnamed_addr', 'weak', 'align', 'dereferenceable'):
            if rp.next() in ('align', 'dereferenceable'):
                rp.attrs(); 
                if rp.peek() == '(':
                    while rp.next() != ')':
                        pass
                elif rp.peek().isdigit():
                    rp.next()
        try:
            ret = rp.type()
        except Unsupported:
            ret = T('void')
        f = Function(name, params, None, ret)
        cur = None
        k = 0
        while k < len(body):
            ln = body[k]
            if not ln.strip() or ln.lstrip().startswith(';'):
                k += 1
                continue
            mm = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if mm:
                nm = mm.group(1).strip('"')
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                if f.entry is None:
                    f.entry = nm
                k += 1
                continue
            if cur is None:
                raise Unsupported('unnamed entry')
            text = ln
            st = ln.strip()
            if st.startswith('switch') or (' switch ' in st[:1]):
                while ']' not in body[k]:
                    k += 1
                    text += ' ' + body[k].strip()
            elif re.match(r'(%[-\w.$]+ = )?invoke ', st) and ' unwind label' not in text:
                while ' unwind label' not in text:
                    k += 1
                    text += ' ' + body[k].strip()
            elif re.match(r'(%[-\w.$]+ = )?landingpad', st):
                while k + 1 < len(body) and re.match(r'\s+(cleanup|catch|filter)', body[k + 1]):
                    k += 1
            if st.startswith('#dbg'):
                k += 1
                continue
            ins = parse_instr(text)
            if ins.op == 'phi':
                cur.phis.append(ins)
            elif ins.op in TERM:
                cur.term = ins
            else:
                cur.instrs.append(ins)
            k += 1
        f.finish()
        self.functions[name] = f
        return f

    def cstring(self, g):
        m = re.search(r'c"((?:[^"\\]|\\.)*)"', self.globals.get(g, ''))
        return m.group(1) if m else None


def sizeof(mod, t):
    if t.k == 'int':
        return max(1, (t.n + 7) // 8)
    if t.k == 'ptr':
        return 8
    if t.k == 'float':
        return {16: 2, 32: 4, 64: 8, 80: 16}[t.n]
    if t.k == 'array':
        return t.n * sizeof(mod, t.sub)
    if t.k in ('named', 'struct'):
        subs = mod.struct(t.n) if t.k == 'named' else t.sub
        off, al = 0, 1
        for s in subs:
            a = alignof(mod, s)
            al = max(al, a)
            off = (off + a - 1) // a * a + sizeof(mod, s)
        return (off + al - 1) // al * al
    raise Unsupported(f'sizeof {t}')


def alignof(mod, t):
    if t.k in ('int', 'ptr', 'float'):
        return sizeof(mod, t)
    if t.k == 'array':
        return alignof(mod, t.sub)
    subs = mod.struct(t.n) if t.k == 'named' else t.sub
    return max([1] + [alignof(mod, s) for s in subs])


def fieldoff(mod, t, i):
    subs = mod.struct(t.n) if t.k == 'named' else t.sub
    off = 0
    for k, s in enumerate(subs):
        a = alignof(mod, s)
        off = (off + a - 1) // a * a
        if k == i:
            return off, s
        off += sizeof(mod, s)
    raise Unsupported('field')
