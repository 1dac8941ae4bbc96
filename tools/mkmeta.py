"""Write properties.jsonl and MANIFEST.json.  The property text lives here; which functions are
anchored is read from the contracts."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from akv import registry, build, props
registry.load()

WHY = ("quantifies over all array contents, lengths and element types; the generated kernel tests run a handful of fixed small inputs per function "
       "(several kernels and most type specialisations have none), and the Python tests reach a kernel only through a few hand-written arrays")

P = {}


def prop(pid, title, statement, text, files=(), mech=(), why=WHY, over=('inputs',), na=None, note='', observe=('the C interface of the CPU kernel library',)):
    P[pid] = dict(title=title, statement=statement, text=text, files=list(files), mech=list(mech), why=why, over=list(over), na=na, note=note, observe=list(observe))


prop('P01', 'CPU kernels: memory discipline, termination and defined arithmetic',
     "For every call whose arguments describe real buffers, a CPU kernel reads and writes only inside the buffers it was given, never writes to an input buffer, and always returns. "
     "It performs no undefined integer arithmetic on the way: no overflow in index computations, no division by zero, no out-of-range shift.",
     'every CPU kernel, every element type, every buffer length and content satisfying the documented argument relations',
     mech=[dict(name='loop bounds and index checks of each kernel', where='src/cpu-kernels/*.cpp')])
prop('P02', 'CPU kernels: integer and array indexing of list-type arrays',
     "The list-indexing kernels select exactly the element Python indexing would select: a position counts from the start of each list if non-negative and from its end if negative, for a single integer, an array of integers, or arrays broadcast together. "
     "A position outside a list is reported as an error naming the first list (and the requested position) that fails, and is never silently wrapped, clamped or read.",
     'all list starts/stops/offsets or regular sizes, all positions (negative, zero, beyond the end), all carry and advanced-index arrays, all index types')
prop('P03', 'CPU kernels: range slices follow Python slice semantics',
     "For every start, stop and step (absent, negative, zero-crossing, beyond either end) a range slice of each list yields exactly the elements, in the order, that Python's slice on a list of that length yields. "
     "The reported lengths, the offsets of the result and the carried positions agree with each other, and advanced indices are repeated to match.",
     'all start/stop/step combinations, all list lengths, all index types')
prop('P04', 'CPU kernels: slicing by jagged and by missing-value arrays',
     "Slicing lists by a jagged array of integers selects, list by list, the element at each (possibly negative) position; a slice item that is missing yields a missing result at the same place and consumes no element. "
     "The slice and the array must have matching lengths, and a mismatch or an out-of-range position is reported as an error for the first list where it occurs.",
     'all jagged slices and all arrays with missing slice items')
prop('P05', 'CPU kernels: reducers compute the fold of each group',
     "Each reducer (sum, product, any, all, min, max, count, nonzero count, argmin, argmax, for every element type, including complex and boolean) stores for every group the fold, in input order, of exactly the elements whose parent is that group, starting from the reducer's identity. "
     "A group without elements receives the identity (or -1 for a position), ties in argmin/argmax go to the first element, and integer results are exact modulo the output width.",
     'all element types, all values, all parent arrays, all output lengths')
prop('P06', 'CPU kernels: preparing a reduction regroups elements without loss',
     "The kernels that prepare a reduction across or along lists assign every element to exactly the output group determined by its list and depth, keep elements of a group in order, and carry each element exactly once. "
     "Group starts, output offsets, gaps for empty entries and position shifts for argmin/argmax are those of the original list structure, so that the result has one entry per original entry.",
     'all offsets and parents arrays, including empty lists, repeated and skipped parents')
prop('P07', 'CPU kernels: option masks and indexes mean the same missing values',
     "For byte masks, bit masks (either bit order, either validity convention) and option indexes, an entry is missing exactly when its mask or index says so: counting, converting between representations, projecting, combining masks and selecting all agree entry by entry. "
     "Entries that are present keep their order and their positions in the content.",
     'all masks, all bit orders and validity conventions, all lengths including non-multiples of 8')
prop('P08', 'CPU kernels: indexed arrays behave as the elements they point to',
     "Operations on an indexed array (simplifying nested indexes, projecting, carrying, flattening missing entries, validity overlay, numbering for reduction) give the result obtained by looking each entry up through the index, with negative index entries meaning missing. "
     "An index entry at or beyond the length of the content is reported as an error naming the first such entry.",
     'all indexes of every integer type, nested indexes, masks')
prop('P09', 'CPU kernels: unions keep every element under its tag',
     "Regrouping, simplifying, projecting, filling, nesting and flattening a union keep for every position the element designated by its tag and index: the new (tag, index) pair designates the same element after merging contents. "
     "Numbering of a union's contents gives each tag consecutive positions in order of appearance.",
     'all tags and indexes, all numbers of contents, all index types')
prop('P10', 'CPU kernels: concatenation and conversion kernels copy every value',
     "Filling a destination from a source at an offset writes exactly the source's values, converted to the destination type as C++ converts them, to consecutive positions starting at that offset and touches nothing else. "
     "Filling of indexes, offsets, starts/stops and tags additionally shifts the values by the stated base.",
     'all pairs of element types, all values, all destination offsets')
prop('P11', 'CPU kernels: offsets, counts, flattening and broadcasting agree',
     "List lengths, compacted offsets, flattened offsets, local indexes, broadcast carries and conversions between list representations all describe the same lists: the i-th list has the same elements in the same order in every representation. "
     "Lists that cannot be represented (negative counts, stops before starts, beyond the content, or lengths that do not match a broadcast) are reported as errors naming the first offending list.",
     'all starts/stops/offsets, regular sizes, all index types')
prop('P12', 'CPU kernels: padding and clipping to a target length',
     "Padding a list to a target length keeps its elements in order and appends missing entries until the target is reached; clipping additionally drops exactly the elements beyond the target. "
     "The computed total lengths and offsets equal the number of entries actually produced.",
     'all targets (including 0), all lists, regular and jagged, masked and indexed')
prop('P13', 'CPU kernels: combinations enumerate each n-tuple exactly once',
     "For each list, the combinations kernels produce the n-element combinations of its positions (with or without replacement) exactly once each, in lexicographic order, with the positions of one combination at the same place in each of the n outputs. "
     "The announced number of combinations per list equals the binomial count and equals the number produced.",
     'all list lengths, n, with and without replacement')
prop('P14', 'CPU kernels: validity checks report the first inconsistency and only those',
     "A structural validity check succeeds exactly when every list start, stop, index, tag and offset is consistent with its content's length, and otherwise reports the first inconsistent position. "
     "It accepts every consistent structure.",
     'all starts/stops/index/tags arrays and content lengths')
prop('P15', 'CPU kernels: sorting and uniqueness',
     "Within each segment, sort writes a permutation of the segment's elements in the requested order and argsort writes a permutation of positions that lists the elements in that order; segments never mix. "
     "Segment boundaries derived from parents are exactly where the parent changes, and removal of duplicates from sorted data keeps the first of each run, for numbers and for strings. Strings are ordered by their bytes, a prefix before its extensions; a stable sort keeps equal elements in their original order. "
     "Two equal ranges among the compared ones are always detected.",
     'all element types, all values, all segmentations, ascending and descending, stable or not')
prop('P16', 'CPU kernels: strided and multidimensional slicing of rectilinear data',
     "Making strided data contiguous, and slicing it by integers, ranges, arrays, new axes and boolean masks, addresses exactly the elements that the strides, sizes and slice items designate, in row-major order of the result. "
     "Copies move whole items byte by byte and nothing else.",
     'all strides, shapes, positions, item sizes, slice items')
prop('P17', 'CPU kernels: identities follow each element to its place',
     "Propagating row identities through lists, regular lists, indexes, unions and carries gives each content element the identity of the row it belongs to, extended by its position in the list, and marks unreachable elements with -1. "
     "Content reached twice is reported as non-unique, and indexes beyond the content are errors.",
     'all identities, list structures, indexes, tags, widths')
prop('P18', 'Kernel dispatch selects the implementation for the argument types',
     "Every kernel entry point of the library, when given the CPU backend, calls exactly the CPU kernel of the same operation and of the same element types, passing every argument in its place and returning that kernel's verdict unchanged. "
     "It does nothing else to the buffers.",
     'every dispatch entry point and every argument value', files=['src/libawkward/kernel-dispatch.cpp'],
     mech=[dict(name='forwarding functions', where='src/libawkward/kernel-dispatch.cpp')], observe=('the kernel dispatch interface used by the array classes',),
     why='several hundred near-identical forwarding functions; tests call a fraction of them with values that would not reveal swapped arguments or a wrong specialisation')
prop('P19', 'CPU kernels: index buffers convert and answer element queries exactly',
     "Converting an index buffer to 64 bits keeps every value, reading or writing one element touches exactly that element, and a buffer is called contiguous exactly when it counts 0, 1, 2, ... up to its length.",
     'all index types, values, positions, lengths')
prop('P20', 'GPU kernels agree with CPU kernels',
     "For every input, a kernel run on the GPU backend produces the same outputs and the same verdict as the CPU kernel of the same name.",
     'all kernels with a GPU implementation, all inputs, all thread schedules', over=('inputs', 'schedules'), files=['src/cuda-kernels'],
     mech=[dict(name='CUDA ports of the kernels', where='src/cuda-kernels')], why='no GPU in CI; the suite never runs them',
     na='CUDA sources cannot be compiled here (no nvcc, no device semantics in any installed verifier), so no contract on that code can be machine-checked')
prop('P21', 'Conversion from and to Python objects is the identity',
     "Building an array from nested Python data (lists, records, strings, missing values, mixed types) and converting it back to Python yields equal data.",
     'all nested Python data', over=('inputs', 'histories'), files=['src/libawkward/builder', 'src/awkward/operations/convert.py'],
     mech=[dict(name='ArrayBuilder state machine', where='src/libawkward/builder'), dict(name='to_list', where='src/awkward/operations/convert.py')],
     why='unbounded nesting and type changes in mid-stream; tests sample a few shapes',
     na='the path goes through CPython objects, pybind11 and a heap of polymorphic shared_ptr builders; no installed deductive verifier accepts that C++ or Python, and a hand-written model would not be the code that runs')
prop('P22', 'Array operations are independent of the layout that represents the data',
     "Every high-level operation gives equal results on any two layouts that represent the same logical array (strided or contiguous, offsets or starts/stops, indexed or direct, lazily loaded or partitioned).",
     'all layouts of all arrays, all operations', over=('inputs', 'configurations'), files=['src/libawkward/array', 'src/awkward'],
     mech=[dict(name='layout classes', where='src/libawkward/array')], why='the product of layouts and operations is unbounded',
     na='stated over whole object graphs of polymorphic C++ classes driven from Python; out of reach of contract verifiers present here (the kernel part of it is what P02-P19 prove)')
prop('P23', 'Compiled (Numba) access equals interpreted access',
     "Iterating over and indexing an array inside a compiled function gives the same values and errors as the same code run by the interpreter.",
     'all arrays and access sequences', over=('inputs', 'programs'), files=['src/awkward/_connect/_numba'],
     mech=[dict(name='Numba lowering', where='src/awkward/_connect/_numba')], why='code generator: every program is a different case',
     na='the subject is a Python code generator targeting LLVM through Numba, which is not installed with the tests here; no contract verifier applies to generated code families')
prop('P24', 'Forth machine: reading from an input never leaves the input',
     "Wherever an input buffer of n bytes is positioned, reading or skipping any amount and seeking to any place either succeeds, with the position moved exactly as asked (and, for a read, the bytes at the old position handed out), or is refused with the matching error and changes nothing; the position always stays between 0 and n, and a read only ever hands out bytes of the input.",
     'all input lengths, positions and requested amounts (any 64-bit number), hence all sequences of reads, seeks and skips', over=('inputs', 'histories'),
     files=['src/libawkward/forth/ForthInputBuffer.cpp'],
     mech=[dict(name='ForthInputBuffer::read, seek, skip, end, pos, len', where='src/libawkward/forth/ForthInputBuffer.cpp')],
     why='tests read a few well-formed inputs; the position is a history-dependent invariant and the amounts come from the program and the data')

prop('P25', 'Forth machine: an output holds exactly what was written to it',
     "Whatever was written to an output before, writing one or many values (of any type, in either byte order), writing a running sum, or repeating the last value appends exactly those values, converted to the output's type, and keeps every earlier one, however often the buffer has to grow and whatever its initial size and growth factor; the values written from are left as they were. Rewinding removes exactly as many values as asked or is refused and changes nothing. Nothing outside the reserved memory is ever accessed, and growing always comes to an end.",
     'all outputs (type, contents, reserved size, growth factor), all written values and counts, hence all sequences of writes and rewinds', over=('inputs', 'histories'),
     files=['src/libawkward/forth/ForthOutputBuffer.cpp'],
     mech=[dict(name='ForthOutputBufferOf<OUT>::write_*, write_one_*, write_add_*, dup, maybe_resize; ForthOutputBuffer::rewind; byteswap16/32/64', where='src/libawkward/forth/ForthOutputBuffer.cpp')],
     why='11 output types times 13 value types times two byte orders, times every point at which the buffer may have to grow; tests write a few values with the default sizes')
prop('P26', 'Builders: a growable buffer keeps every element',
     "Appending to a growable buffer, reserving memory or changing its length keeps every earlier element, in order, for every initial size and growth factor; an appended element is the last one; the length never exceeds the reserved memory, what is called reserved is what was allocated, and nothing outside of it is accessed. New buffers (empty, filled with one value, or counting 0, 1, 2, ...) hold exactly what their name says; clearing leaves an empty buffer.",
     'all element types except complex, all contents, lengths, reserved sizes, initial sizes and growth factors, hence all sequences of operations', over=('inputs', 'histories'),
     files=['src/libawkward/builder/GrowableBuffer.cpp'],
     mech=[dict(name='GrowableBuffer<T>::append, set_reserved, set_length, clear, empty, full, arange', where='src/libawkward/builder/GrowableBuffer.cpp')],
     why='every array builder stands on this buffer; the point of growth depends on the history, and tests use the default initial size')


def main():
    out, checks, na = [], [], []
    for pid, d in sorted(P.items()):
        fams = props.families(pid) if d['na'] is None else []
        files = list(d['files'])
        if pid == 'P01':
            files.append('src/cpu-kernels')
        else:
            for f in fams:
                s = build.source_of(registry.FAMILIES[f][0], f)
                if build.is_unit(s[0]):
                    continue
                r = os.path.relpath(s[0], build.REPO)
                if r not in files:
                    files.append(r)
        mech = d['mech'] or [dict(name='one kernel per operation and type specialisation', where='src/cpu-kernels (files listed)')]
        out.append(dict(id=pid, title=d['title'], statement=d['statement'], quantifier=dict(over=d['over'], text=d['text']), why_tests_cant=d['why'],
                        anchors=dict(files=files or ['src/cpu-kernels'], mechanism=mech, observe_at=d['observe'], hook_needed=None)))
        claimed = d['na'] is None and (fams or props.PROPS.get(pid, {}).get('extra'))
        if claimed:
            bnd = props.PROPS[pid].get('bounded_note', '')
            checks.append(dict(property=pid, quick_cmd=f'python3-vt -m akv.check {pid}', thorough_cmd=f'VERIF_TIER=thorough python3-vt -m akv.check {pid}',
                               evidence_file=f'evidence/{pid}.json', technique='contract-based deductive verification of the kernels\' LLVM IR (own VC generator, z3)',
                               level='proof', level_note='all obligations of every function listed in the evidence file are discharged for all inputs satisfying the stated precondition; trusted: clang, the VC generator, z3, '
                               'non-overlapping buffers, uninterpreted floating point.' + bnd))
        else:
            na.append(dict(property=pid, reason=d['na'] or 'contracts not written yet'))
    open(ROOT + '/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in out))
    json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, akv.registry as r; r.load()"', checks=checks, not_applicable=na,
                   notes='no hooks: the verifier reads the unmodified sources'), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not claimed')


main()
