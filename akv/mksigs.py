"""One-off: freeze the C signatures of the kernel interface into signatures.json.
Taken from include/awkward/kernels.h (types, constness) of the pinned commit."""
import re, json, yaml, sys
txt = open('/repo/include/awkward/kernels.h').read()
spec = yaml.safe_load(open('/repo/kernel-specification.yml'))
fam = {}; dirs = {}
for k in spec['kernels']:
    for s in k['specializations']:
        fam[s['name']] = k['name']
        dirs[s['name']] = [a['dir'] for a in s['args']]
out = {}
for m in re.finditer(r'EXPORT_SYMBOL\s+ERROR\s+(\w+)\(([^)]*)\)', txt):
    name, args = m.group(1), m.group(2)
    al = []
    for a in args.split(','):
        a = ' '.join(a.split())
        if not a: continue
        mm = re.match(r'(const )?(\w+)\s*(\**)\s*(?:const )?(\w+)$', a)
        assert mm, a
        al.append(dict(name=mm.group(4), type=mm.group(2), ptr=len(mm.group(3)), const=bool(mm.group(1))))
    out[name] = dict(family=fam.get(name), args=al, dirs=dirs.get(name))
json.dump(out, open('/verif/akv/signatures.json', 'w'), indent=0, sort_keys=True)
print(len(out), sum(1 for v in out.values() if v['family'] is None), len(set(v['family'] for v in out.values())))
print([k for k,v in out.items() if v['family'] is None][:20], [k for k in fam if k not in out])
# kernel-utils.h: helpers that return a value or nothing
txt = open('/repo/include/awkward/kernel-utils.h').read()
for m in re.finditer(r'EXPORT_SYMBOL\s+(\w+)\s+(\w+)\(([^)]*)\)', txt):
    ret, name, args = m.groups()
    al = []
    for a in args.split(','):
        a = ' '.join(a.split())
        mm = re.match(r'(const )?(\w+)\s*(\**)\s*(?:const )?(\w+)$', a)
        if not mm:
            break
        al.append(dict(name=mm.group(4), type=mm.group(2), ptr=len(mm.group(3)), const=bool(mm.group(1))))
    if not mm:
        continue
    f = re.sub(r'(Index|NumpyArray)(U?\d+|bool|float\d+)_', r'\1_', name)
    f = re.sub('_step_64$', '_step', f)
    out[name] = dict(family=f, args=al, dirs=None, ret=ret)
json.dump(out, open('/verif/akv/signatures.json', 'w'), indent=0, sort_keys=True)
print(len(out), sorted({v['family'] for v in out.values() if 'ret' in v}))
