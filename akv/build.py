"""Compile /repo's current sources: to LLVM IR (what is verified) and to shared
objects (what counterexamples are replayed on)."""
import os, subprocess, re, glob, tempfile, shutil

REPO = os.environ.get('AKV_REPO', '/repo')
CLANGXX = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
LINK = '/usr/bin/llvm-link-18'
GXX = '/usr/bin/g++'
NOSPEC = ['-phi-node-folding-threshold=0', '-two-entry-phi-node-folding-threshold=0', '-speculate-one-expensive-inst=false', '-bonus-inst-threshold=0']
PASSES = 'always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify)'
BASE = ['-std=c++11', '-I' + REPO + '/include', '-DVERSION_INFO="verif"', '-w']
KDIR = REPO + '/src/cpu-kernels'
UNITS = os.path.dirname(os.path.abspath(__file__)) + '/units'
# functions of C++ classes are entered through the small functions in units/, which include the repository's source file,
# lay out an object and call one member function; everything is inlined and the object disappears
UNITFLAGS = ['-I' + REPO + '/src', '-I' + UNITS, '-fno-access-control', '-funroll-loops']
_P2 = 'early-cse,simplifycfg,instsimplify,adce,sroa,early-cse,simplifycfg,instsimplify,loop-simplify'
SORTPASSES = PASSES.replace('function(', 'function(lower-constant-intrinsics,').replace('loop-simplify', _P2)
SORTS = r'_ZSt(?:4sort|11stable_sort)I'
UNITPASSES = PASSES.replace('function(', 'function(lower-constant-intrinsics,').replace('loop-simplify', f'{_P2},lcssa,loop(loop-unroll-full),{_P2}')


class BuildError(Exception):
    pass


def run(cmd, timeout=600, inp=None):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, input=inp)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
    return r.stdout


def is_unit(src):
    return src.startswith(UNITS + '/')


def shown(src):
    """the repository file that src is, or that the unit src includes"""
    if src and is_unit(src):
        m = re.findall(r'#include "(libawkward/[^"]*\.cpp)"', open(src).read())
        return ' + '.join('src/' + x for x in m)
    return os.path.relpath(src, REPO) if src else None


def raw_ir(src, extra=()):
    if is_unit(src):
        extra = list(extra) + UNITFLAGS + ['-Xclang', '-mno-constructor-aliases']
    return run([CLANGXX] + BASE + list(extra) + ['-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-disable-lifetime-markers', '-fno-discard-value-names', '-gline-tables-only',
               '-fno-strict-aliasing', '-S', '-emit-llvm', '-o', '-', src])


_defs = None


def definers():
    """symbol name -> kernel source files that seem to define it (textual index)"""
    global _defs
    if _defs is None:
        _defs = {}
        for f in sorted(glob.glob(KDIR + '/*.cpp')):
            txt = open(f, errors='replace').read()
            for m in re.finditer(r'\b([A-Za-z_]\w*)\s*\(', txt):
                _defs.setdefault(m.group(1), set()).add(f)
    return _defs


def source_of(name, family):
    """source file defining an extern "C" function; the file named after the family first"""
    if name.startswith('unit_'):
        return [f'{UNITS}/{name.split("_")[1]}.cpp']
    c = []
    for f in (f'{KDIR}/{family}.cpp',):
        if os.path.exists(f) and re.search(r'\b' + name + r'\s*\(', open(f, errors='replace').read()):
            c.append(f)
    c += [f for f in sorted(definers().get(name, ())) if f not in c]
    return c


def unresolved(ll):
    out = set()
    for m in re.finditer(r'^declare [^\n]*?@("[^"]*"|[-\w.$]+)\(', ll, re.M):
        n = m.group(1).strip('"')
        if not n.startswith('llvm.'):
            out.add(n)
    return out


def plain(n):
    """source-level name of a possibly mangled symbol, roughly"""
    m = re.match(r'_ZN?(?:K)?(\d+)', n)
    if m:
        k = int(m.group(1))
        return n[m.end():m.end() + k]
    return n


def to_ir(src, noinline=(), extra=(), passes=PASSES, link=True):
    """IR text of one translation unit, after linking the other kernel sources it
    calls into, inlining, and SSA construction."""
    if is_unit(src):
        link, passes = False, UNITPASSES
    ll = raw_ir(src, extra)
    if re.search(r'^define [^\n]*@"?' + SORTS, ll, re.M):
        # library sorts are used through a contract: they and the comparisons handed to them stay functions of their own
        ll = raw_ir(src, list(extra) + ['-fno-exceptions'])
        noinline, passes = list(noinline) + [SORTS] + [re.escape(c) + r'"?\(' for c in comparators(ll)], SORTPASSES
    if link:
        need = [n for n in unresolved(ll) if plain(n) in definers()]
        files = set()
        for n in need:
            c = definers()[plain(n)] - {src}
            files |= {f for f in c if f.endswith('kernel-utils.cpp')} or set(list(c)[:3])
        if files:
            d = tempfile.mkdtemp(prefix='akv')
            try:
                names = []
                open(d + '/0.ll', 'w').write(ll)
                names.append(d + '/0.ll')
                for i, f in enumerate(sorted(files)):
                    open(f'{d}/{i + 1}.ll', 'w').write(raw_ir(f, extra))
                    names.append(f'{d}/{i + 1}.ll')
                ll = run([LINK, '-S', '-o', '-'] + names)
            finally:
                shutil.rmtree(d)
    if is_unit(src):
        keep = re.findall(r'^define [^\n]*@(unit_\w+)\(', ll, re.M)
        ll = run([OPT, '-S', '-internalize-public-api-list=' + ','.join(keep), '-passes=internalize,globaldce', '-'], inp=ll)
    if noinline:
        ll = mark_noinline(ll, noinline)
    return run([OPT, '-S', '-inline-threshold=1000000'] + NOSPEC + ['-passes=' + passes, '-'], inp=ll)


def callgraph(ll):
    g = {}
    for m in re.finditer(r'^define [^\n]*?@("[^"]*"|[-\w.$]+)\([^\n]*\{\n(.*?)^\}', ll, re.M | re.S):
        g[m.group(1).strip('"')] = {c.strip('"') for c in re.findall(r'(?:call|invoke) [^\n]*?@("[^"]*"|[-\w.$]+)\(', m.group(2))}
    return g


def library(name):
    return re.match(r'_ZN?K?(St|9__gnu_cxx)|_ZN?K?S[a-z]|llvm\.|__|_Z(nw|na|dl|da)', name) is not None


def compared_by(g, sort):
    """functions of the program that the library function `sort` ends up calling"""
    seen, todo, out = set(), [sort], set()
    while todo:
        f = todo.pop()
        for c in g.get(f, ()):
            if c in seen:
                continue
            seen.add(c)
            if library(c):
                todo.append(c)
            elif c in g:
                out.add(c)
    return out


def comparators(ll):
    g = callgraph(ll)
    return sorted(set().union(*[compared_by(g, f) for f in g if re.match(SORTS, f)]))


def mark_noinline(ll, pats):
    out = []
    for ln in ll.split('\n'):
        if ln.startswith('define ') and any(re.search(r'@"?(?:' + n + ')', ln) for n in pats):
            i = ln.rindex(') ') if ') #' not in ln else ln.rindex(') #')
            ln = ln[:i + 1] + ' noinline' + ln[i + 1:]
        out.append(ln)
    return '\n'.join(out)


def to_so(srcs, out, extra=()):
    if is_unit(srcs[0]):
        extra = list(extra) + [f for f in UNITFLAGS if f != '-funroll-loops'] + ['-DAKV_NATIVE', '-O1', '-Wl,-z,lazy']
    run([GXX] + BASE + ['-O2', '-fPIC', '-shared', '-o', out] + list(extra) + list(srcs))
    return out
