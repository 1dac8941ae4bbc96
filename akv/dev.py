"""python3-vt -m akv.dev REGEX [-v] [-1]: verify matching functions (development)"""
import re, sys, time, traceback
from multiprocessing import Pool
from . import registry, build, ir, verify


def work(a):
    src, names, fam, v = a
    registry.load()
    out = []
    try:
        mod = ir.Module(build.to_ir(src, noinline=registry.CONTRACTS[fam].opts.get('noinline', ())))
    except Exception as e:
        return [(n, dict(status='build', why=str(e)[-600:], obligations=0, discharged=0, failed=[]), '') for n in names]
    for n in names:
        lg = []
        try:
            e = registry.CONTRACTS[fam]
            r = verify.verify(mod, n, e.f, **e.opts.get('prover', {}), log=lambda *x: lg.append(' '.join(map(str, x))))
        except Exception:
            r = dict(status='crash', why=traceback.format_exc()[-1800:], obligations=0, discharged=0, failed=[])
        out.append((n, r, '\n'.join(lg)))
    return out


def main():
    registry.load()
    pat = sys.argv[1]
    v = '-v' in sys.argv
    one = '-1' in sys.argv
    jobs = []
    for fam, e in sorted(registry.CONTRACTS.items()):
        ns = [n for n in registry.FAMILIES[fam] if re.search(pat, n) or re.search(pat, fam)]
        if one:
            ns = ns[:1]
        for i in range(0, len(ns), 4):
            jobs.append((build.source_of(ns[0], fam)[0], ns[i:i + 4], fam, v))
    t = time.time()
    cnt = {}
    with Pool(8, maxtasksperchild=4) as p:
        for res in p.imap_unordered(work, jobs):
            for n, r, lg in res:
                cnt[r['status']] = cnt.get(r['status'], 0) + 1
                if r['status'] != 'proved' or v:
                    print(n, r['status'], (r.get('why') or '')[-1500:], r.get('inputs_failing', ''), f"{r['discharged']}/{r['obligations']} {r.get('wall', 0):.1f}s")
                    for f in r['failed']:
                        print('     ', f)
                    if v:
                        print(lg)
                elif r.get('wall', 0) > 20:
                    print(n, 'slow', round(r['wall']))
    print(cnt, f'{time.time() - t:.0f}s')


main()
