"""family -> contract"""
import importlib, json, os, pkgutil

HERE = os.path.dirname(os.path.abspath(__file__))
SIGS = json.load(open(HERE + '/signatures.json'))
CONTRACTS = {}
PROPS = {}


class Entry:
    def __init__(self, family, f, opts):
        self.family, self.f, self.opts = family, f, opts


def contract(*families, prop, **opts):
    def deco(f):
        for fam in families:
            full = fam if fam in FAMILIES else 'awkward_' + fam
            if full not in FAMILIES:
                raise KeyError(full)
            if full in CONTRACTS:
                raise KeyError('duplicate ' + full)
            CONTRACTS[full] = Entry(full, f, opts)
            for p in ([prop] if isinstance(prop, str) else prop):
                PROPS.setdefault(p, []).append(full)
        return f
    return deco


FAMILIES = {}
for n, s in SIGS.items():
    FAMILIES.setdefault(s['family'], []).append(n)


def unit(name, args, ret='void', family=None):
    """a function of units/ (entry point to a member function of a C++ class)"""
    SIGS[name] = dict(family=family or name, ret=ret, args=args, unit=True)
    FAMILIES.setdefault(family or name, []).append(name)


def load():
    from . import contracts
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module('akv.contracts.' + m.name)
    return CONTRACTS
