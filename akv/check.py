"""python3-vt -m akv.check <property>: decide one property on /repo's current tree.

exit 0: every obligation discharged (or, where stated, the bounded stand-in found nothing);
exit 1 with VIOLATION lines otherwise."""
import atexit, importlib, json, os, random, shutil, sys, tempfile, time, traceback, multiprocessing as mp
T0 = time.time()
from . import registry, build, ir, verify, replay, dsl

ROOT = os.path.dirname(registry.HERE)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEADLINE = T0 + float(os.environ.get('AKV_DEADLINE', '700' if TIER == 'quick' else '3000'))
NPROC = int(os.environ.get('AKV_PROCS', '8'))


MODS = {}


def module(src, noinline):
    if src not in MODS:
        m = ir.Module(build.to_ir(src, noinline=noinline))
        if not build.is_unit(src):
            return m
        MODS[src] = m
    return MODS[src]


def prove_job(a):
    src, names, fam, only, hard = a
    registry.load()
    e = registry.CONTRACTS[fam]
    out = []
    if e.opts.get('bounded'):
        return [dict(function=n, family=fam, file=build.shown(src), status='unsupported' if src else 'missing', why=e.opts['bounded'],
                     obligations=0, discharged=0, failed=[], solver_s=0, inputs=0) for n in names]
    try:
        mod = module(src, e.opts.get('noinline', ())) if src else None
        err = None
    except Exception as ex:
        mod, err = None, traceback.format_exc()[-1500:]
    for n in names:
        try:
            if mod is None:
                r = dict(function=n, status='unsupported', why=err or 'no source defines it', obligations=0, discharged=0, failed=[], solver_s=0, inputs=0)
            else:
                lg = []
                kw = dict(ms_h=6000, ms_f=60000, ninputs=150, nstates=60) if hard else {}
                kw.update(e.opts.get('prover', {}))
                r = verify.verify(mod, n, e.f, seed=SEED + (17 if hard else 0), only=only, log=(lambda *x: lg.append(' '.join(map(str, x)))) if hard else None, **kw)
                if hard:
                    r['log'] = lg[-60:]
        except Exception:
            r = dict(function=n, status='unsupported', why='verifier error: ' + traceback.format_exc()[-1500:], obligations=0, discharged=0, failed=[], solver_s=0, inputs=0)
        r['family'] = fam
        r['file'] = build.shown(src)
        r.pop('invariants_list', None)
        out.append(r)
    return out


def native_job(a):
    n, fam, given, seconds, count, only, seed = a
    registry.load()
    try:
        return n, replay.run(n, registry.CONTRACTS[fam].f, given=given, seed=seed, seconds=seconds, count=count, only=only, family=fam)
    except Exception:
        return n, dict(tested=0, distinct=0, failing=None, why=traceback.format_exc()[-1500:], error=True)


def pool_run(f, jobs, deadline):
    """results in completion order; jobs not finished at the deadline are dropped"""
    if not jobs:
        return
    with mp.Pool(min(NPROC, len(jobs)), maxtasksperchild=4) as p:
        it = p.imap_unordered(f, jobs)
        for _ in jobs:
            try:
                yield it.next(timeout=max(1.0, deadline - time.time()))
            except mp.TimeoutError:
                p.terminate()
                return
            except StopIteration:
                return


def split(fams, only, hard, names=None):
    jobs = []
    for fam in fams:
        ns = [n for n in registry.FAMILIES[fam] if names is None or n in names]
        bysrc = {}
        for n in ns:
            s = build.source_of(n, fam)
            bysrc.setdefault(s[0] if s else None, []).append(n)
        for src, l in bysrc.items():
            step = 1 if hard or registry.CONTRACTS[fam].opts.get('slow') else 3
            for i in range(0, len(l), step):
                jobs.append((src, l[i:i + step], fam, only, hard))
    jobs.sort(key=lambda j: not registry.CONTRACTS[j[2]].opts.get('slow'))
    return jobs


def decide_kernels(fams, only, report):
    res = {}
    jobs = split(fams, only, False)
    for src in sorted({j[0] for j in jobs if j[0] and (build.is_unit(j[0]) or registry.CONTRACTS[j[2]].opts.get('slow'))}):
        # large translation units: parse once, before the workers are forked
        try:
            module(src, ())
        except Exception:
            pass
    for rs in pool_run(prove_job, jobs, DEADLINE - 200):
        for r in rs:
            res[r['function']] = r
    fam_of = {n: f for f in fams for n in registry.FAMILIES[f]}
    for n in fam_of:
        if n not in res:
            res[n] = dict(function=n, family=fam_of[n], status='timeout', why='not finished within the time budget', obligations=0, discharged=0, failed=[], solver_s=0, inputs=0)
    # second attempt with more time and examples
    und = {n for n, r in res.items() if r['status'] == 'undecided'}
    if und:
        for rs in pool_run(prove_job, split(sorted({fam_of[n] for n in und}), only, True, und), DEADLINE - 120):
            for r in rs:
                r['solver_s'] += res[r['function']]['solver_s']
                res[r['function']] = r
    # real code
    nat = []
    for n, r in res.items():
        st = r['status']
        if st == 'refuted':
            nat.append((n, fam_of[n], [r['inputs_failing']], 25.0, 10 ** 9, only, SEED))
        elif st in ('undecided', 'vacuous'):
            nat.append((n, fam_of[n], None, 40.0, 10 ** 9, only, SEED))
        elif st in ('unsupported', 'timeout', 'missing'):
            if st != 'missing':
                nat.append((n, fam_of[n], None, 15.0, 40000, only, SEED))
        elif TIER == 'thorough':
            nat.append((n, fam_of[n], None, 20.0, 20000, only, SEED))
    natres = {}
    if nat:
        for n, r in pool_run(native_job, nat, DEADLINE):
            natres[n] = r
    for n, r in sorted(res.items()):
        m = natres.get(n)
        r['native'] = {a: b for a, b in m.items() if a in ('tested', 'distinct', 'error')} if m else None
        st = r['status']
        if m and m['failing'] is not None:
            report(r, inputs=m['failing'], why=m['why'], observed=m.get('observed'))
        elif st == 'refuted':
            report(r, inputs=None, why='on the compiled IR: ' + str(r['why']) + ' for ' + str(r['inputs_failing']))
        elif st in ('undecided', 'vacuous'):
            report(r, inputs=None, why='; '.join(f'{a}: {b} ({c})' for a, b, c in r['failed']) or r.get('why'))
    return res


class Reporter:
    def __init__(self, pid, only):
        self.pid, self.only, self.n = pid, only, 0
        p = ROOT + '/known-findings.json'
        self.known = [x for x in json.load(open(p)) if x.get('status') == 'known' and x['property'] == pid] if os.path.exists(p) else []

    def known_findings(self):
        """run each recorded failing input on the real code against the strict contract"""
        n = 0
        for x in self.known:
            m, f = x['contract'].split(':')
            c = getattr(importlib.import_module(m), f)
            r = replay.run(x['function'], c, given=[x['inputs']], count=0, seconds=0)
            n += r['tested']
            if r['failing'] is not None:
                print(f"KNOWN-FINDING: property={self.pid} {x['what']}", flush=True)
        return n

    def __call__(self, r, inputs, why, observed=None):
        d = ROOT + '/work/replay'
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{self.pid}-{r['function']}.json"
        doc = dict(kind=r.get('kind', 'kernel'), property=self.pid, function=r['function'], family=r.get('family'), file=r.get('file'), only=self.only, why=why,
                   inputs=inputs, observed=observed, failed_obligations=r.get('failed'), verifier_status=r['status'], verifier_output=r.get('log'),
                   replay='cd /verif && python3-vt -m akv.replay ' + path)
        json.dump(doc, open(path, 'w'), indent=1, default=str)
        print(f"  {r['function']}: {str(why)[:400]}")
        if inputs is not None:
            print(f"    input {json.dumps(inputs, default=str)[:600]}")
        print(f"VIOLATION property={self.pid} replay={path}" + ('' if inputs is not None else ' no-failing-input-found'), flush=True)
        self.n += 1


TRUST = ['clang 18 front end and the LLVM passes inline/sroa/early-cse/simplifycfg/instsimplify/loop-simplify (the verified text is their output on the current source)',
         'the verification-condition generator akv/ (ir.py, sem.py, prove.py)', 'z3 (python z3-solver)']
ASSUME = ['the caller satisfies the stated precondition (buffer lengths, index ranges as produced by libawkward)',
          'distinct pointer arguments do not overlap', f'no buffer has more than 2^{dsl.LMAX.bit_length() - 1} elements; where the code adds user-supplied 64-bit values they are within 2^{dsl.VMAX.bit_length() - 1}',
          'floating-point operations are uninterpreted functions in the proofs (same operations on the same operands in the same order)',
          'integer reductions are modulo 2^n (signed overflow in sum/prod taken as wrapping)']


def main():
    pid = sys.argv[1]
    me, so = os.getpid(), tempfile.mkdtemp(prefix='akvunit')
    os.environ['AKV_SO'] = so
    atexit.register(lambda: shutil.rmtree(so, ignore_errors=True) if os.getpid() == me else None)
    registry.load()
    from . import props
    P = props.PROPS[pid]
    only = P.get('only')
    rep = Reporter(pid, only)
    fams = props.families(pid)
    res = decide_kernels(fams, only, rep) if fams else {}
    kn = rep.known_findings()
    extra = P.get('extra')
    ex = extra(rep) if extra else {}
    by, kinds = {}, {}
    for r in res.values():
        for a, b in (r.get('by') or {}).items():
            by[a] = by.get(a, 0) + b
        for a, b in (r.get('kinds') or {}).items():
            kinds[a] = kinds.get(a, 0) + b
    for a, b in ex.get('by', {}).items():
        by[a] = by.get(a, 0) + b
    st = {}
    for r in res.values():
        st.setdefault(r['status'], []).append(r['function'])
    cov = dict(obligations=sum(r['obligations'] for r in res.values()) + ex.get('obligations', 0),
               discharged=sum(r['discharged'] for r in res.values()) + ex.get('discharged', 0),
               checker_cmd=f'cd /verif && python3-vt -m akv.check {pid}', trusted_base=TRUST + ex.get('trusted', []),
               functions_under_contract=len(res) + ex.get('functions', 0), functions_proved=len(st.get('proved', [])) + ex.get('functions_proved', 0),
               obligations_by_back_end=by, obligations_by_kind=kinds, solver_s=round(sum(r['solver_s'] for r in res.values()) + ex.get('solver_s', 0), 2),
               loop_invariants_proved=sum(r.get('invariants', 0) for r in res.values() if isinstance(r.get('invariants', 0), int)),
               example_executions=sum(r['inputs'] for r in res.values()),
               exits_checked_reachable=sum(r.get('exits_live', 0) for r in res.values()),
               native_executions=sum((r.get('native') or {}).get('tested', 0) for r in res.values()),
               bounded={r['function']: dict(why=str(r.get('why'))[:300], native_inputs=(r.get('native') or {}).get('tested', 0)) for r in res.values() if r['status'] in ('unsupported', 'timeout', 'missing')},
               not_proved={s: l for s, l in st.items() if s != 'proved'},
               functions={r['function']: dict(file=r.get('file'), status=r['status'], obligations=r['obligations'], solver_s=round(r['solver_s'], 2)) for r in sorted(res.values(), key=lambda r: r['function'])})
    if kn:
        cov['known_finding_inputs_run'] = kn
    cov.update(ex.get('coverage', {}))
    assume = ASSUME + ex.get('assumptions', []) + P.get('assumptions', [])
    for fam in fams:
        for x in registry.CONTRACTS[fam].opts.get('assume', ()):
            assume.append(f'{fam}: {x}')
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=P.get('level', 'proof'), coverage=cov, assumptions=assume, wall_s=round(time.time() - T0, 1), violations=rep.n)
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{ROOT}/evidence/{pid}.json', 'w'), indent=1)
    print(f"{pid}: {cov['functions_under_contract']} functions under contract, {cov['discharged']}/{cov['obligations']} obligations discharged, "
          f"{len(cov['bounded'])} bounded, {rep.n} violations, {ev['wall_s']} s")
    sys.exit(1 if rep.n else 0)


if __name__ == '__main__':
    main()
