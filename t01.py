"""T01: the benchmark summary script, run as a process on generated result files; its table is parsed and compared with a model."""
import json, os, random, re, sys, hashlib

OPS = ['Addition', 'Subtraction', 'Multiplication', 'Division', 'Modulo', 'Powm', 'GCD', 'LCM', 'SquareRoot', 'Ctor', 'Hex', 'a', '0', 'x86', 'Left Shift', 'op-1', 'Aesi', 'GMP']
LIBS = ['Aesi', 'GMP', 'CryptoPP', 'Boost', 'Aesi_512', 'Crypto_PP_8', 'gmp', 'x', '1024', 'lib_', 'A', 'long_name_with_many_parts', 'Addition', 'Aeu']

def model(doc):
    ops, libs, cell = [], [], {}
    for b in doc['benchmarks']:
        op, lib = b['name'].split('_', 1)
        if op not in ops: ops.append(op)
        if lib not in libs: libs.append(lib)
        cell[op, lib] = int(b['real_time'])
    return ops, libs, cell

def generate(r):
    ops = r.sample(OPS, r.randint(0 if r.random() < .03 else 1, r.choice([1, 3, len(OPS)]))); libs = r.sample(LIBS, r.randint(1, r.choice([1, 2, 4, len(LIBS)])))
    pairs = [(o, l) for o in ops for l in libs if r.random() < r.choice([1, .7, .3])]
    shape = r.random()
    if shape < .4: r.shuffle(pairs)
    elif shape < .6: pairs.sort(key=lambda p: libs.index(p[1]))
    if pairs and r.random() < .4: pairs += [r.choice(pairs) for _ in range(r.randint(1, 4))]
    def time():
        k = r.randint(0, 9)
        return [0, 0.0, 0.999999, r.randint(1, 9), r.randint(10, 10 ** 6), r.random() * 10, r.random() * 1e9, 1e15 + r.randint(0, 9), 2 ** 53 + .0, r.randint(1, 999) + .5][k]
    bs = []
    for o, l in pairs:
        b = {'name': o + '_' + l, 'real_time': time(), 'cpu_time': time(), 'time_unit': 'ns', 'iterations': r.randint(1, 10 ** 9), 'run_name': o + '_' + l, 'run_type': 'iteration', 'family_index': r.randint(0, 99), 'threads': 1}
        ks = list(b); r.shuffle(ks); bs.append({k: b[k] for k in ks})
    doc = {'context': {'date': 'x', 'num_cpus': 8, 'benchmarks': 'decoy'}, 'benchmarks': bs}
    if r.random() < .2: doc = {'benchmarks': bs}
    return doc

def cells(line): return [c.strip() for c in line.strip().strip('|').split('|')]

def judge(doc, rc, out):
    """None, or what is wrong with the output"""
    ops, libs, cell = model(doc)
    if rc != 0: return 'exit status %s' % rc
    lines = [l for l in out.split('\n') if l.strip()]
    if len(lines) != 2 + len(ops): return '%d rows instead of %d' % (len(lines) - 2, len(ops))
    head = cells(lines[0])[1:] if libs else []
    names = [re.sub(r'\s*\(ns\)$', '', h) for h in head]
    if names != libs: return 'columns %r instead of %r' % (names, libs)
    for op, line in zip(ops, lines[2:]):
        c = cells(line)
        if c[0] != op: return 'row %r where %r belongs' % (c[0], op)
        want = [str(cell[op, l]) if (op, l) in cell else '—' for l in libs]
        got = ['—' if x in ('—', '-', '–', '--') else x for x in c[1:]]
        if got != want: return 'row %r has cells %r instead of %r' % (op, got, want)
    return None

def run(driver, th, wd, tier, seed):
    script = driver.REPO + '/ci/benchmarking/make_summary.py'
    n = 12000 if tier == 'thorough' else 1500
    env = {'PYTHONUTF8': '1', 'PYTHONDONTWRITEBYTECODE': '1'}
    rep = {'evaluations': 0, 'distinct': 0, 'ops': {}, 'samples': [], 'feats': {}}; viol = []; seen = set()
    def one(i):
        r = random.Random((seed << 32) + i)
        p = '%s/b%d.json' % (wd, i)
        if i <= 2:
            rc, o, e = driver.sh([sys.executable, script], 60, env, wd)
            return ('usage', None, rc, o, e)
        doc = generate(r); json.dump(doc, open(p, 'w'), ensure_ascii=bool(i & 1))
        rc, o, e = driver.sh([sys.executable, script, p], 60, env, wd)
        os.remove(p)
        return ('summary', doc, rc, o, e)
    res, errs = driver.pool(list(range(1, n + 1)), one)
    for i, x in enumerate(res, 1):
        if x is None: continue
        kind, doc, rc, o, e = x
        rep['evaluations'] += 1; rep['ops'][kind] = rep['ops'].get(kind, 0) + 1
        if rc is None: errs.append((i, Exception('the script did not end'))); continue
        if kind == 'usage':
            why = None if rc == 1 and 'usage' in e.lower() and not o.strip() else 'without arguments: exit status %s, error stream %r, output %r' % (rc, e[:200], o[:200])
        else:
            why = judge(doc, rc, o); h = hashlib.sha256(json.dumps(doc, sort_keys=True).encode()).digest()
            ops, libs, cell = model(doc)
            if why and rc != 0: why += ' ' + e[-300:]
            if len(doc['benchmarks']) > 1 and h not in seen: seen.add(h); rep['distinct'] += 1
            for f, c in (('missing pair', len(cell) < len(ops) * len(libs)), ('repeated pair', len(cell) < len(doc['benchmarks'])), ('zero time', 0 in cell.values()), ('underscore in library', any('_' in l for l in libs))):
                if c: rep['feats'][f] = rep['feats'].get(f, 0) + 1
            if i in (5, 50, 500): rep['samples'].append(json.dumps([b['name'] + '=' + str(b['real_time']) for b in doc['benchmarks']])[:400])
        if why: viol.append({'kind': 'mismatch', 'unit': 'python3 %s FILE' % script, 'W': 0, 'idx': i, 'op': kind, 'detail': why, 'operands': json.dumps(doc)})
    return [rep], {}, viol[:10], [str(e) for _, e in errs]
