"""Verify one extern "C" function of the kernel library against its contract."""
import json, os, random, time, traceback
import z3
from . import build, ir, dsl, sem, interp, cands, prove, registry

HERE = os.path.dirname(os.path.abspath(__file__))
SIGS = registry.SIGS


def gen_input(sig, contract, rng, size=4, tries=60):
    for _ in range(tries):
        k = dsl.K(sig, 'gen', {}, rng, size=size)
        try:
            contract(k)
        except dsl.Reject:
            continue
        return k
    return None


def con_k(sig, contract, inputs):
    k = dsl.K(sig, 'con', {a: (list(v) if isinstance(v, list) else v) for a, v in inputs.items()})
    contract(k)
    return k


class Mismatch(Exception):
    pass


def check_result(k, err, mem, ret=None, inputs_after=None):
    """None if the observed outcome satisfies the contract, else a description"""
    exp = k.first_failures()
    if err is None and exp:
        return f'no error was reported; expected one of {sorted(exp)[:3]} (identity, attempt)'
    if err is not None:
        if not exp:
            return f'error (identity {err[0]}, attempt {err[1]}) was reported for valid input'
        if err not in exp:
            return f'error (identity {err[0]}, attempt {err[1]}) was reported; expected {sorted(exp)[:3]}'
        return None
    for o in k.outs:
        for v in dsl.enum_dims(o.dims):
            if o.final is not None and not o.final():
                break
            if o.when is not None and not o.when(*v):
                continue
            a = o.at(*v) if o.at else (v[0] if v else 0)
            m = mem[o.region]
            x = o.val(*v)
            if isinstance(a, tuple):
                got = m[a[0]][a[1]] if 0 <= a[0] < len(m) and 0 <= a[1] < len(m[a[0]]) else None
            else:
                got = m[a] if 0 <= a < len(m) else None
            if got is None:
                return f'{o.region}[{a}] is outside the buffer ({len(m)} elements)'
            if not dsl.eq(got, x if not isinstance(x, bool) else int(x)):
                return f'{o.region}[{a}] is {got}, expected {x}'
    st = interp.ConState((), mem, {})
    for f, name in k.posts:
        if not f(st):
            return f'postcondition fails: {name}'
    if k.retspec is not None and ret is not None:
        rt = k.sig.get('ret')
        if rt in dsl.CT and dsl.CT[rt][0] == 'int':
            ret = dsl.wrap(int(ret), rt)
        if not dsl.eq(ret, k.retspec) and ret != k.retspec:
            return f'returned {ret}, expected {k.retspec}'
    return None


def interp_run(mod, fn, sig, contract, inputs, hook=None):
    """-> (k, description or None). description: contract violated on this input"""
    k = con_k(sig, contract, inputs)
    it = interp.Interp(mod, fn, sig, k, header_hook=hook)
    try:
        it.run()
    except interp.Trap as e:
        return k, str(e), it
    except interp.Budget:
        return k, None, it
    d = check_result(k, it.error(), it.mem, it.ret if not it.sret else None)
    return k, d, it


class Report:
    pass


def verify(mod, name, contract, seed=1, ninputs=40, nstates=25, ms_h=1500, ms_f=20000, log=None, prove_it=True, only=None, fname=None, done=None):
    """returns dict: status proved / refuted / undecided / unsupported, details"""
    t0 = time.time()
    log = log or (lambda *a: None)
    sig = SIGS[name]
    out = dict(function=name, status=None, obligations=0, discharged=0, failed=[], solver_s=0.0, inputs=0)
    rng = random.Random(seed * 1000003 + len(name))
    fname = fname or name
    done = done if done is not None else set()
    done.add(fname)
    if not mod.has(fname):
        out['status'] = 'missing'
        return out
    try:
        fn = mod.function(fname)
    except ir.Unsupported as e:
        out.update(status='unsupported', why=str(e))
        return out
    # ---- examples
    states = {h: [] for h in fn.loops}
    seen_ct = {h: 0 for h in fn.loops}
    kcur = [None]

    def hook(it, lp):
        h = lp.header
        seen_ct[h] += 1
        ch = chain_of(fn, h)
        if len(states[h]) >= nstates * 6:
            if rng.random() > 0.05:
                return
            idx = rng.randrange(len(states[h]))
        else:
            idx = None
        ts = tuple(it.counters[x] for x in ch)
        phis = {(x, ph.res): it.env[ph.res] for x in ch for ph in fn.blocks[x].phis}
        st = interp.ConState(ts, {r: [list(x) if isinstance(x, list) else x for x in m] if isinstance(m, list) else m for r, m in it.mem.items()}, phis)
        st.env = {n: v for n, v in it.env.items() if v is None or isinstance(v, (int, tuple))}
        if idx is None:
            states[h].append((st, kcur[0]))
        else:
            states[h][idx] = (st, kcur[0])
    refuted = None
    nin = 0
    unsupported = None
    for j in range(ninputs):
        g = gen_input(sig, contract, rng, size=rng.choice([2, 3, 4, 6]))
        if g is None:
            continue
        try:
            kcur[0] = con_k(sig, contract, g.inputs)
            it = interp.Interp(mod, fn, sig, kcur[0], header_hook=None if g.wild else hook)
            nin += 1
            try:
                it.run()
                d = check_result(kcur[0], it.error(), it.mem, it.ret if not it.sret else None) if only != 'safety' else None
            except interp.Trap as e:
                d = str(e)
            except interp.Budget:
                d = 'termination: no result after 60000 instructions'
            except dsl.Reject:
                nin -= 1
                continue
        except ir.Unsupported as e:
            unsupported = str(e)
            break
        if d is not None:
            refuted = (g.inputs, d)
            break
    out['inputs'] = nin
    if refuted:
        out.update(status='refuted', inputs_failing=refuted[0], why=refuted[1])
        out['wall'] = time.time() - t0
        return out
    if not nin and not unsupported:
        out.update(status='vacuous', why='no input satisfying the precondition was found')
        return out
    if not prove_it:
        return out
    # ---- proof
    try:
        best = None
        for ext in (False, True):
            ex = sem.Executor(mod, fn, sig, contract)
            ex.ext = ext
            ncand = [0, 0]

            def gen(ex, lr):
                cs = cands.generate(ex, lr)
                ncand[0] += len(cs)
                keep = []
                sts = states[lr.loop.header]
                for c in cs:
                    ok = True
                    for st, k in sts:
                        try:
                            if not c.con(st, k):
                                ok = False
                                break
                        except dsl.TooBig:
                            continue
                        except (dsl.Reject, IndexError, KeyError):
                            ok = False
                            break
                    if ok:
                        keep.append(c)
                ncand[1] += len(keep)
                log(f'  [{lr.loop.header}] ' + '; '.join(c.name for c in keep))
                return keep
            ex.run(gen)
            log(f'  {ncand[0]} candidates, {ncand[1]} survive {nin} examples; loops {len(ex.loops)}')
            pr = prove.Prover(ex, ms_h, ms_f, log=log, only=only)
            r = pr.run()
            if best is None or len(r.failed) < len(best[1].failed):
                best = ex, r
            if not r.failed or ext:
                break
        ex, r = best
    except ir.Unsupported as e:
        out.update(status='unsupported', why=str(e), wall=time.time() - t0)
        return out
    out.update(obligations=r.obligations + ex.stats.get('trivial', 0), discharged=r.discharged + ex.stats.get('trivial', 0), solver_s=r.solver_s, by=r.by, kinds=r.kinds,
               invariants=r.invariants, loops=len(ex.loops), passes=r.passes)
    out['exits'], out['exits_live'] = r.exits, r.exits_live
    out['failed'] = [(a, b, c) for a, b, c, m in r.failed]
    out['status'] = 'proved' if not r.failed else 'undecided'
    if out['status'] == 'proved' and (out['obligations'] == 0 or (r.exits and not r.exits_live)):
        out.update(status='vacuous', why='the hypotheses are contradictory at every exit')
    for c in sorted(ex.same - done):
        if out['status'] != 'proved' or c in done:
            break
        r2 = verify(mod, name, contract, seed, ninputs, nstates, ms_h, ms_f, log, prove_it, only, c, done)
        for f in ('obligations', 'discharged', 'solver_s', 'invariants', 'loops'):
            out[f] = out.get(f, 0) + r2.get(f, 0)
        for f in ('by', 'kinds'):
            for x, y in r2.get(f, {}).items():
                out[f][x] = out[f].get(x, 0) + y
        if r2['status'] != 'proved':
            out.update(status=r2['status'], why=r2.get('why'), failed=[(a, f'{b} [in {c}]', d) for a, b, d in r2['failed']])
            if 'inputs_failing' in r2:
                out['inputs_failing'] = r2['inputs_failing']
    out['wall'] = time.time() - t0
    return out


def chain_of(fn, h):
    ch = [h]
    l = fn.loops[h].parent
    while l:
        ch.append(l.header)
        l = l.parent
    return ch[::-1]
