"""What each check builds and runs."""
import re
# widths in eight groups of similar cost
GROUPS = [[96, 544, 8192], [128, 416, 6144], [160, 512, 4096], [192, 384, 3072], [224, 768, 2048], [256, 1056, 1536], [288, 320, 1312], [352, 448, 480, 1024]]
SMALL = [[96, 384], [128, 352], [160, 544], [192, 512], [224, 448], [256, 416], [288, 768], [320, 1024]]
GMP = 'values are loaded and read through setBlock/getBlock and judged against GMP 6 big integers'

def units(src, groups, **kw):
    return [dict({'name': '%s-%s' % (src.split('.')[0], g[0]), 'src': src, 'widths': g}, **kw) for g in groups]

def simple(src, groups, rule, assumptions=(), **kw):
    return lambda tier, seed: {'units': units(src, groups, **kw), 'rule': rule, 'assumptions': [GMP] + list(assumptions)}

def digest_stderr(e):
    m = re.search(r'(runtime error: .*|ERROR: \w+Sanitizer: .*|WARNING: \w+Sanitizer: .*|Assertion .*)', e)
    return m.group(1)[:300] if m else e.strip()[-300:]

CASES = ('cases are drawn from boundary-block products (exhaustive at 96/128 bits), long runs of equal bits, sparse and dense blocks, powers of two +-2, 64-bit edges and operands related to the '
         'first one, seeded by VERIF_SEED; one evaluation is one library operation whose result is compared with the oracle; distinct non-trivial counts different '
         '(operation, width, operands) tuples with an operand above 1 in magnitude, by hash')
ALL = {}
SCALE = {'U01': 1, 'U02': 2, 'U03': 2, 'U04': 2, 'U05': 6, 'U06': 6, 'U07': 3, 'U08': 6,
         'S01': 2, 'S02': 2, 'S03': 3, 'S04': 4, 'S05': 2, 'S06': 4,
         'C01': 5, 'C02': 1, 'C03': 3, 'C04': 3, 'C05': 3, 'C06': 3, 'C07': 3}
# beyond the predefined types: one huge width for the cheap operations, one moderately huge for the others (width, scale, every k-th case)
HUGE = {'U01': (66560, 40, 1), 'U02': (9248, 3, 1), 'U03': (66560, 4, 8), 'U04': (66560, 4, 2), 'U05': (66560, 12, 6), 'U06': (9248, 20, 1), 'U07': (9248, 40, 1), 'U08': (9248, 40, 1),
        'S01': (66560, 20, 30), 'S02': (66560, 8, 1), 'S03': (9248, 20, 1), 'S04': (9248, 20, 1), 'S05': (9248, 4, 1), 'S06': (9248, 4, 1),
        'C01': (9248, 25, 1), 'C02': (9248, 1, 12), 'C03': (9248, 2, 1), 'C04': (66560, 100, 300), 'C05': (66560, 40, 1), 'C06': (66560, 20, 30), 'C07': (66560, 100, 300)}
def _core(p):
    w, sc, ev = HUGE[p]
    return lambda tier, seed: {'units': units(p + '.cpp', [[w]], args=['--scale', str(sc), '--every', str(ev)]) + units(p + '.cpp', GROUPS, args=['--scale', str(SCALE[p])]), 'rule': CASES, 'assumptions': [GMP]}
for _p in SCALE: ALL[_p] = _core(_p)



# ------------------------------------------------------------------------------------------------ cross-cutting checks
ASAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
SENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0', 'UBSAN_OPTIONS': 'print_stacktrace=0', 'MSAN_OPTIONS': 'halt_on_error=1', 'TSAN_OPTIONS': 'halt_on_error=1'}
CORE = ['U01', 'U02', 'U03', 'U04', 'U05', 'U06', 'U07', 'U08', 'S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07']

def x01(tier, seed):
    us = []
    deep = tier == 'thorough'
    for h in CORE + ['X02']:
        slow = h in ('S04', 'X02', 'S03', 'S05', 'U04', 'C03', 'C02')
        for g in ([[96, 416], [128, 544], [1056]] if not deep else [[96, 384], [128, 416], [160, 544], [224, 1056], [2048]]):
            us.append({'name': 'asan-%s-%d' % (h, g[0]), 'src': h + '.cpp', 'widths': g, 'flags': ASAN, 'san': True, 'env': SENV, 'args': ['--nocheck', '--hang', '100', '--every', '1' if deep else '3' if slow else '2', '--scale', '0.5' if deep else '1']})
    for g in ([96, 160], [352], [544]): us.append({'name': 'msan-%d' % g[0], 'src': 'X01msan.cpp', 'widths': g, 'cc': 'clang++', 'flags': ['-O1', '-g1', '-fsanitize=memory', '-fno-sanitize-recover=all', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], 'libs': [], 'san': True, 'env': SENV})
    us.append({'name': 'msan-O0-128', 'src': 'X01msan.cpp', 'widths': [128, 224], 'cc': 'clang++', 'flags': ['-O0', '-g1', '-fsanitize=memory', '-fno-sanitize-recover=all', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], 'libs': [], 'san': True, 'env': SENV, 'args': ['--scale', '0.3']})
    us.append({'name': 'ctype', 'src': 'X01ctype.cpp', 'widths': [96, 128], 'flags': ['-O1'], 'san': True, 'args': ['--nocheck', '--scale', '2']})
    for h in ('C01', 'C02', 'C03', 'C04', 'C07', 'S04'): us.append({'name': 'memcheck-' + h, 'src': h + '.cpp', 'widths': [96, 416], 'flags': ['-O1', '-g1'], 'san': True, 'wrap': ['valgrind', '-q', '--error-exitcode=99', '--leak-check=no'], 'args': ['--nocheck', '--hang', '100', '--every', '3' if deep else '20', '--scale', '0.3']})
    return {'units': us, 'rule': CASES.replace('one evaluation is one library operation whose result is compared with the oracle', 'one evaluation is one library operation executed under the instrumentation (its value is judged by the other checks)'),
            'assumptions': ['AddressSanitizer, UndefinedBehaviorSanitizer (gcc 13), MemorySanitizer (clang 18), libstdc++ assertions, valgrind memcheck and a <cctype> argument guard are the oracles; undefined behaviour that none of them observes stays unseen']}

def x03(tier, seed):
    us = [{'name': 'tsan-%s-%d' % (cc, g[0]), 'src': 'X03.cpp', 'widths': g, 'cc': cc, 'flags': ['-O1', '-g1', '-fsanitize=thread', '-pthread'], 'libs': ['-pthread'], 'san': True, 'env': SENV} for cc, g in (('g++', [96, 256]), ('clang++', [128, 512]), ('clang++', [96, 160]))]
    us += [{'name': 'native-%d' % g[0], 'src': 'X03.cpp', 'widths': g, 'flags': ['-O2', '-pthread'], 'libs': ['-pthread'], 'args': ['--scale', '3']} for g in ([96, 224], [128, 384])]
    return {'units': us, 'rule': 'rounds of eight threads released by a barrier, each performing every operation on its own numbers and on shared constant numbers, perturbed by random yields and pauses; one evaluation is one operation in a concurrent phase; '
            'distinct non-trivial counts different (operation, width, result) triples with a word above one; interleavings are told apart by the order in which the threads pass every 64th operation',
            'assumptions': ['ThreadSanitizer observes instrumented code only: the libstdc++ stream internals are trusted']}

O2 = ['-O2', '-DNDEBUG']
def twin_filter(driver, th, wd, tier, seed, violations, special, note):
    """a failure of a monitor in a special build counts only if the ordinary build passes the same case"""
    keep = []
    for v in violations:
        u = v['unit']
        if u.get('twin'):
            t = dict(u, flags=[f for f in u['flags'] if f not in special], pre_inc=[], name='twin-' + u['name'])
            rs, vs, es = driver.run_units([dict(t, args=t['args'] + ['--only', str(v['W']), str(v['idx'])]) if v['idx'] else t], th, wd, tier, seed)
            if vs: continue
            v = dict(v, detail=v['detail'] + note)
        keep.append(v)
    return keep

def x04(tier, seed):
    deep = tier == 'thorough'
    plan = [('g++', [96]), ('g++', [128]), ('g++', [160]), ('g++', [224]), ('g++', [320]), ('g++', [512]), ('clang++', [96]), ('clang++', [192]), ('clang++', [416])]
    if deep: plan += [('g++', [w]) for w in (192, 256, 288, 352, 416, 544, 768)] + [('clang++', [w]) for w in (128, 160, 224, 256, 320, 512)]
    gcc = ['-O1', '-Wfatal-errors', '-fconstexpr-ops-limit=300000000', '-fconstexpr-loop-limit=1000000000', '-fconstexpr-depth=20000']; clang = ['-O1', '-Wfatal-errors', '-fconstexpr-steps=300000000', '-fconstexpr-depth=20000']
    us = []
    for k in range(6 if deep else 1):
        for cc, g in plan: us.append({'name': 'constexpr-%s-%d-%d' % (cc, g[0], k), 'src': 'X04.cpp', 'widths': g, 'cc': cc, 'libs': [], 'flags': (gcc if cc == 'g++' else clang) + ['-DVF_SEED=%dull' % (seed * 131 + k + 7), '-DVF_CASES=%d' % (8 if deep else 6 if cc == 'g++' else 4), '-DVF_CHEAP=%d' % (40 if deep else 30 if cc == 'g++' else 14)]})
    # the branches for constant evaluation, executed at run time under the workloads and oracles of the other properties
    path = ['-include', '{HARN}/constant_path.h'] + if_consteval()
    for g in ([96, 256], [160, 544], [128, 416]):
        for label, fl in (('ordinary', O2), ('constant path', O2 + path)): us.append({'name': '%s %d' % (label, g[0]), 'src': 'X05.cpp', 'widths': g, 'flags': fl + ['-DBT_BEYOND=1'], 'libs': ['-lgmpxx', '-lgmp'], 'label': label, 'group': g[0], 'beyond': 1, 'args': ['--scale', '0.4' if deep else '0.7']})
    for h in CORE: us.append({'name': 'path-' + h, 'src': h + '.cpp', 'widths': [96, 352] if not deep else [96, 160, 352, 544], 'flags': ['-O1', '-DNDEBUG'] + path, 'twin': True, 'args': ['--every', '1' if deep else '4']})
    def post(driver, th, wd, tier, seed, us, reps, violations, extra):
        keep = twin_filter(driver, th, wd, tier, seed, violations, path, ' (in the branch for constant evaluation, executed at run time; the ordinary build is right)')
        return compare_digests(driver, th, wd, tier, seed, us, reps, keep, extra, ref='ordinary', what='(branches for constant evaluation, executed at run time) differs from the ordinary build')
    return {'units': us, 'post': post, 'rule': 'every operation of both number types on seeded operands, as the initialiser of a constexpr object and again at run time from a volatile seed; and the workloads of the other properties with the branches for constant evaluation executed at run time; one evaluation is one pair of results or one judged operation; distinct non-trivial counts different (operation, width, result or operands) tuples',
            'assumptions': ['a constant evaluation may take up to 300 million steps (about ten times what the costliest one takes)', 'the branches for constant evaluation are selected by std::is_constant_evaluated, its builtin or if consteval']}

def if_consteval():
    """can 'consteval' be read as '(true)' in this tree? (not when it declares immediate functions)"""
    import subprocess, run
    t = '#include <AesiMultiprecision/Aesi.h>\nint main() {}\n'
    c = subprocess.run(['g++', '-std=c++20', '-w', '-fsyntax-only', '-x', 'c++', '-DVF_IF_CONSTEVAL', '-include', run.HARN + '/constant_path.h', '-I' + run.INC, '-'], input=t, text=True, capture_output=True)
    return ['-DVF_IF_CONSTEVAL'] if c.returncode == 0 else []

def x05(tier, seed):
    deep = tier == 'thorough'
    conf = [('gcc -O2 NDEBUG', 'g++', O2, 1), ('gcc -O2 NDEBUG, valid indices', 'g++', O2, 0), ('gcc -O0', 'g++', ['-O0'], 1), ('gcc -O2 assertions', 'g++', ['-O2', '-D_GLIBCXX_ASSERTIONS'], 1), ('gcc -O3 native', 'g++', ['-O3', '-march=native', '-DNDEBUG'], 1),
            ('clang -O2 NDEBUG', 'clang++', O2, 1), ('clang -O0', 'clang++', ['-O0'], 1), ('gcc unsafe', 'g++', O2 + ['-DAESI_UNSAFE=1'], 0), ('clang unsafe assertions', 'clang++', ['-O1', '-DAESI_UNSAFE=1'], 0),
            ('gcc GMP', 'g++', O2 + ['-DAESI_GMP_INTEGRATION'], 1), ('gcc pre-C++20 operators', 'g++', O2 + ['-DPRE_CPP_20=1'], 1)]
    if deep: conf += [('gcc -O1', 'g++', ['-O1'], 1), ('gcc -Os', 'g++', ['-Os'], 1), ('clang -O3', 'clang++', ['-O3', '-march=native'], 1), ('gcc C++23', 'g++', O2, 1), ('gcc unsafe -O0', 'g++', ['-O0', '-DAESI_UNSAFE=1'], 0), ('gcc unsafe GMP -O3', 'g++', ['-O3', '-DAESI_UNSAFE=1', '-DAESI_GMP_INTEGRATION'], 0), ('clang GMP', 'clang++', O2 + ['-DAESI_GMP_INTEGRATION'], 1)]
    us = []
    for g, sc in (([96, 256], '1'), ([160, 544], '0.8'), ([416, 1056, 9248], '0.7')):
        for label, cc, fl, beyond in conf:
            us.append({'name': 'cfg %s %d' % (label, g[0]), 'src': 'X05.cpp', 'widths': g, 'cc': cc, 'flags': fl + ['-DBT_BEYOND=%d' % beyond], 'args': ['--scale', sc if not deep else str(float(sc) * .4)], 'label': label, 'group': g[0], 'beyond': beyond, 'std': 'c++23' if 'C++23' in label else 'c++20', 'libs': ['-lgmpxx', '-lgmp'] if 'GMP' in label else []})
    multi = ['X05multi.cpp', 'X05multi_a.cpp', 'X05multi_b.cpp', 'X05multi_c.cpp']
    us += [{'name': 'multi-' + n, 'src': multi, 'cc': cc, 'flags': fl, 'libs': []} for n, cc, fl in (('gcc', 'g++', O2), ('gcc-O0', 'g++', ['-O0']), ('clang', 'clang++', O2))]
    us += [{'name': 'multi-gmp', 'src': multi, 'flags': O2 + ['-DAESI_GMP_INTEGRATION']}, {'name': 'multi-unsafe', 'src': multi, 'flags': O2 + ['-DPRE_CPP_20=1'], 'libs': []}]
    return {'units': us, 'post': lambda *a: compare_digests(*a, ref='gcc -O2 NDEBUG', what='differs from the reference build (gcc -O2 NDEBUG)'),
            'rule': 'a seeded workload of every operation, run by differently built programs; per-operation and per-case digests are compared; one evaluation is one operation in one program; distinct non-trivial counts different (operation, width, result) triples with a word above one, per program',
            'assumptions': ['agreement is with the reference build; that build is judged against GMP by the other checks']}

def compare_digests(driver, th, wd, tier, seed, us, reps, violations, extra, ref, what):
    out = list(violations); compared = 0
    for g in sorted({u['group'] for u in us if 'group' in u}):
        rs = {u['label']: (u, r) for u, r in zip(us, reps) if u.get('group') == g and r and r['status'] == 'ok'}
        if ref not in rs: continue
        ru, rr = rs[ref]
        byb = {}
        for label, (u, r) in rs.items():
            byb.setdefault(u['beyond'], r)
        for label, (u, r) in rs.items():
            if label == ref: continue
            bad = [op for op, d in r['opDigests'].items() if op in rr['opDigests'] and rr['opDigests'][op] != d]
            compared += sum(op in rr['opDigests'] for op in r['opDigests'])
            if not bad: continue
            W, idx = u['widths'][0], 0
            for w, cs in r['caseDigests'].items():
                base = byb[u['beyond']]['caseDigests'].get(w, [])
                dif = [i for i, (x, y) in enumerate(zip(cs, base)) if x != y]
                if dif: W, idx = int(w), dif[0] + 1; break
            out.append({'kind': 'different results', 'unit': u, 'W': W, 'idx': idx, 'op': ', '.join(sorted(bad)[:6]), 'detail': 'build "%s" %s' % (label, what), 'operands': 'replay prints the results of this build; compare with the reference build'})
    extra['operation_digests_compared'] = compared; extra['builds'] = len({u['label'] for u in us if 'label' in u})
    return out

EMU = ['-include', '{HARN}/cuda_shim/cuda_emu.h']
def g01(tier, seed):
    deep = tier == 'thorough'
    us = []
    for g in ([96, 256], [160, 544], [416, 1056]):
        for label, cc, fl, cuda in (('ordinary', 'g++', O2, 0), ('CUDA mode, gcc', 'g++', O2, 1), ('CUDA mode, clang', 'clang++', ['-O1'], 1)):
            us.append({'name': '%s %d' % (label, g[0]), 'src': 'X05.cpp', 'widths': g, 'cc': cc, 'flags': fl + ['-DBT_BEYOND=1'] + (EMU if cuda else []), 'pre_inc': ['{HARN}/cuda_shim'] if cuda else [], 'libs': [], 'label': label, 'group': g[0], 'beyond': 1, 'args': ['--scale', '0.4' if deep else '1']})
    for g in ([96, 544], [128, 416, 2048], [224, 320, 1056]): us.append({'name': 'G01-%d' % g[0], 'src': 'G01.cpp', 'widths': g, 'flags': O2 + EMU, 'pre_inc': ['{HARN}/cuda_shim'], 'args': ['--scale', '2']})
    for h in [h for h in CORE if h not in ('U04', 'S05', 'C07')]: us.append({'name': 'cuda-' + h, 'src': h + '.cpp', 'widths': [96, 352] if not deep else [96, 160, 352, 544], 'flags': ['-O1', '-DNDEBUG'] + EMU, 'pre_inc': ['{HARN}/cuda_shim'], 'twin': True, 'args': ['--every', '1' if deep else '4']})
    def post(driver, th, wd, tier, seed, us, reps, violations, extra):
        keep = twin_filter(driver, th, wd, tier, seed, violations, EMU, ' (the ordinary build is right)')
        return compare_digests(driver, th, wd, tier, seed, us, reps, keep, extra, ref='ordinary', what='differs from the ordinary build')
    return {'units': us, 'post': post, 'rule': 'the digest workload of X05 in CUDA mode and in the ordinary build, the oracle monitors of the other properties compiled in CUDA mode (a failure counts only if the ordinary build passes the same case), and the CUDA-only members against shadow values; one evaluation is one operation; distinct non-trivial by hash of operation, width and operands or result',
            'assumptions': ['CUDA mode is emulated on the host: __CUDACC__, __host__, __device__, a sequential atomicExch and cuda::std::array/pair/swap taken from the standard library']}

def t01(tier, seed):
    import t01 as m
    return {'custom': m.run, 'rule': 'generated benchmark result files with seeded operations, libraries (also with underscores), orders, missing and repeated pairs, zero and fractional times; one evaluation is one run of the script whose printed table is parsed and compared with a model; distinct non-trivial counts different files with at least two measurements', 'assumptions': ['benchmark names have the form operation_library']}

ALL['X01'] = x01
ALL['X02'] = simple('X02.cpp', GROUPS, CASES, args=['--scale', '1'])
ALL['X06'] = simple('X06.cpp', GROUPS, 'histories of 200 steps over four unsigned and four signed objects at fixed addresses; between two calls one operand changes in a small place (one bit, one block, all but the lowest or highest block), two operands trade places, or nothing changes; two thirds of the calls repeat the operation of the last one; every result is compared with GMP; distinct non-trivial counts different (operation, width, operands) tuples', args=['--scale', '0.25'])
def x07(tier, seed):
    us = [{'name': 'work-%d' % g[0], 'src': 'X07.cpp', 'widths': g, 'flags': ['-O1', '-fsanitize-coverage=trace-pc'], 'libs': [], 'san': True, 'args': ['--scale', '1']} for g in ([96, 448], [128, 416], [160, 352], [224, 256], [192, 320], [544, 288], [1056], [2048], [9248], [66560])]
    return {'units': us, 'rule': 'the seeded workload of every operation (boundary, edge and related operands), with every executed basic block counted; one evaluation is one operation whose block count is compared with the budget of its class (about twenty times the cost of the schoolbook algorithm, polynomial in the width); the deepest stack frame of each operation is compared with two hundred numbers plus 32 KiB; an operation that passes the largest budget is stopped at once; distinct non-trivial counts different (operation, width, result) triples with a word above one',
            'assumptions': ['basic blocks of the instrumented headers are counted; time inside the standard library is not']}
def x08(tier, seed):
    us = [{'name': 'plain-%s-%d' % (cc, g[0]), 'src': 'X08.cpp', 'widths': g, 'cc': cc, 'flags': ['-O1', '-DNDEBUG'], 'libs': [], 'args': ['--scale', '3' if tier == 'quick' else '2']} for cc, g in (('g++', [96, 416]), ('g++', [128, 544]), ('g++', [160, 224]), ('g++', [192, 256]), ('g++', [320]), ('g++', [1056, 2048]), ('clang++', [96, 352]), ('clang++', [512]))]
    return {'units': us, 'rule': 'every operation with malloc and its relatives interposed and counted; bytewise copies (memcpy into garbage-filled memory, stored byte arrays, realloc, memmove, byte swaps in arrays) followed by every operation, compared with the original; one evaluation is one operation; distinct non-trivial counts different (operation, width, result) triples with a word above one',
            'assumptions': ['malloc, calloc, realloc, aligned_alloc, memalign and posix_memalign are the ways to obtain heap memory (operator new ends there)']}
ALL['X07'] = x07; ALL['X08'] = x08
ALL['X03'] = x03; ALL['X04'] = x04; ALL['X05'] = x05; ALL['G01'] = g01; ALL['T01'] = t01

def get(prop, tier, seed): return ALL[prop](tier, seed)

ORACLE = 'runtime monitoring: online oracle monitor (GMP big integers) over seeded hostile workloads'
NOTE = 'Bounded exploration: every executed operation is judged exactly; operands and widths are sampled (boundary products exhaustively at small widths). Trusts GMP, the compiler and the block accessors used to load and read values.'
INFO = {k: (ORACLE, NOTE) for k in ALL}
B = 'Bounded exploration: '
INFO['S04'] = ('runtime monitoring: shadow-state monitor over random operation histories, every observer compared with the shadow integer and with a freshly built number', B + 'histories of 60 steps over four variables; trusts GMP and the parser/accessors used to build the fresh twin.')
INFO['C02'] = ('runtime monitoring: online oracle on emitted text with fault-injecting stream buffers', B + 'all bases and flag combinations, values sampled; failing sinks at sampled positions.')
INFO['C03'] = ('runtime monitoring: canary-guarded output buffers with an exact text oracle', B + 'every buffer size around the needed one, values sampled; trusts GMP for the numerals.')
INFO['C04'] = ('runtime monitoring: byte-level oracle on binary streams with fault-injecting stream buffers', B + 'truncation and sink failure at every byte for small widths, values sampled.')
INFO['X01'] = ('compiler sanitizers (address, undefined behaviour, memory), libstdc++ assertions, valgrind memcheck and a ctype argument guard under the hostile workloads of all other checks', B + 'a clean run covers the executed operations and operands only; intra-object overflow is seen through X02 guard words and libstdc++ assertions.')
INFO['X02'] = ('runtime monitoring: byte snapshots of every operand and of guard words around it after each operation; aliased calls compared with calls on equal copies', B + 'operands sampled, all operations and compound operators covered.')
INFO['X03'] = ('ThreadSanitizer and result comparison between concurrent and sequential execution, with seeded schedule perturbation', B + 'races are reported on executed interleavings; evidence counts distinct interleavings and thread switches.')
INFO['X04'] = ('differential monitoring: constant evaluation against run-time execution of the same operations', B + 'a few operand sets per operation and width and both compilers; a constant expression that no longer compiles is a violation.')
INFO['X05'] = ('differential monitoring: per-operation result digests across builds (compilers, optimisation, assertions, GMP, unsafe mode, header order)', B + 'a fixed seeded workload through eleven builds; agreement only, correctness is judged by the other checks.')
INFO['X06'] = ('runtime monitoring: online GMP oracle over long call histories on fixed objects with minimally changing operands', B + 'histories sampled; a cache whose stale hit needs an unlikely coincidence of operands can stay unseen.')
INFO['X07'] = ('runtime monitoring: basic-block counting and stack-depth instrumentation (trace-pc) with a work and stack budget per operation and width', B + 'operands sampled; constant-factor slowdowns below about twenty are allowed on purpose.')
INFO['X08'] = ('runtime monitoring: interposed allocator and bytewise-copy differential monitor', B + 'every operation is executed with allocations counted, operands sampled.')
INFO['G01'] = ('differential monitoring: emulated CUDA-mode build against the ordinary build, plus shadow-value monitor of the CUDA-only members', B + 'host emulation of the CUDA macros, no nvcc and no GPU.')
INFO['T01'] = ('runtime monitoring: model-based oracle over the output of the script run on generated result files', B + 'generated files; trusts the Python json module.')
