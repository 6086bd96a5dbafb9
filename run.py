#!/usr/bin/env python3
"""Driver of all checks:   run.py <property> [quick|thorough]      run.py --replay <file>      run.py --setup

Builds the property's monitors from /repo's current headers, runs them in parallel, judges their reports, writes
evidence/<property>.json.  Exit 0: held; 1: VIOLATION line printed; 2: the check itself could not be carried out."""
import sys, os, json, time, hashlib, subprocess, threading, queue, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
INC = REPO + '/include'
HARN = HERE + '/harness'
BUILD = HERE + '/.build'
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
JOBS = max(2, min(16, os.cpu_count() or 4))

def tree_hash():
    h = hashlib.sha256()
    for base in (INC, HARN):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b'\0'); h.update(open(p, 'rb').read()); h.update(b'\0')
    return h.hexdigest()

class CheckError(Exception): pass
class CompileError(CheckError): pass

def sh(cmd, timeout, env=None, cwd=None):
    """run a command in its own process group; returns (rc, stdout, stderr); rc None on timeout"""
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), r.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, r = p.communicate()
        return None, o.decode('utf-8', 'replace'), r.decode('utf-8', 'replace')

def prune():
    d = BUILD + '/bin'
    try: fs = [(os.path.getmtime(d + '/' + f), d + '/' + f) for f in os.listdir(d)]
    except FileNotFoundError: return
    fs.sort()
    total = sum(os.path.getsize(f) for _, f in fs if os.path.exists(f))
    for _, f in fs:
        if total < 1_500_000_000: break
        total -= os.path.getsize(f); os.remove(f)

def compile_cmd(u, out):
    cc = u.get('cc', 'g++')
    cmd = [cc, '-std=' + u.get('std', 'c++20'), '-w'] + [f.format(HARN=HARN) if '{HARN}' in f else f for f in u.get('flags', ['-O2', '-DNDEBUG'])]
    cmd += ['-I' + x.format(HARN=HARN) for x in u.get('pre_inc', [])] + ['-I' + INC, '-I' + HARN]
    if u.get('widths'): cmd.append('-DVF_WIDTHS=' + ','.join(map(str, u['widths'])))
    srcs = u['src'] if isinstance(u['src'], list) else [u['src']]
    cmd += [s if s.startswith('/') else HARN + '/' + s for s in srcs] + ['-o', out] + u.get('libs', ['-lgmpxx', '-lgmp'])
    return cmd

def build(u, th):
    cmd = compile_cmd(u, '@OUT@')
    key = hashlib.sha256((th + '\0'.join(cmd)).encode()).hexdigest()[:24]
    os.makedirs(BUILD + '/bin', exist_ok=True)
    out = BUILD + '/bin/' + key
    if os.path.exists(out):
        os.utime(out); return out
    tmp = out + '.%d.tmp' % os.getpid()
    rc, o, e = sh(compile_cmd(u, tmp), 600)
    if rc != 0:
        rc2, o2, e2 = sh(compile_cmd(u, tmp), 600) if rc == -9 else (rc, o, e)
        if rc2 == 1 and 'error:' in e2: raise CompileError('building %s failed:\n%s' % (u['name'], '\n'.join([l for l in e2.splitlines() if 'error' in l or 'note:' in l][:12])))
        if rc2 != 0: raise CheckError('building %s failed (rc %s):\n%s' % (u['name'], rc2, e2[-3000:]))
    os.rename(tmp, out)
    return out

def run_unit(u, exe, seed, tier, wd):
    outf = wd + '/' + u['name'].replace('/', '_') + '.json'
    base = [exe] + u.get('args', [])
    def once(extra):
        if os.path.exists(outf): os.remove(outf)
        rc, o, e = sh(u.get('wrap', []) + base + ['--seed', str(seed), '--tier', tier, '--out', outf] + extra, u.get('timeout', 420 if tier == 'quick' else 20000), u.get('env'), wd)
        lines = open(outf).read().splitlines() if os.path.exists(outf) else []
        try: rep = json.loads(lines[0]) if lines else None
        except ValueError: rep = None
        return rc, o, e, rep
    rc, o, e, rep = once([])
    if rep is None and rc == -9:                    # killed from outside (memory): once more
        rc, o, e, rep = once([])
    if rep is None:
        if rc is not None and rc not in (0, -9) and u.get('san'):
            rep = {'status': 'sanitizer', 'op': '?', 'W': 0, 'idx': 0, 'evaluations': 0}
        else: raise CheckError('%s gave no report (rc %s)\n%s\n%s' % (u['name'], rc, o[-1000:], e[-2000:]))
    if rep['status'] == 'hang':                      # confirm: the one case alone must hang again
        rc2, o2, e2, rep2 = once(['--only', str(rep['W']), str(rep['idx'])])
        if not (rep2 and rep2['status'] == 'hang'): raise CheckError('%s: a case looked stuck but is not reproducible: %s' % (u['name'], rep))
    if rep['status'] == 'ok' and rc != 0 and not rep.get('fails'):
        if u.get('san'): rep['status'] = 'sanitizer'; rep.setdefault('op', '?'); rep.setdefault('W', 0); rep.setdefault('idx', 0)
        else: raise CheckError('%s ended with rc %s after an ok report\n%s' % (u['name'], rc, e[-2000:]))
    if rep['status'] == 'ok' and rep.get('fails'): rep['status'] = 'fail'
    rep['stderr'] = e[-6000:]; rep['stdout'] = o[-2000:]; rep['unit'] = u['name']; rep['rc'] = rc
    return rep

def baseline_compiles(wd):
    """does a program that only includes the headers compile? (tells a missing operation from a broken tree or toolchain)"""
    src = wd + '/baseline.cpp'; open(src, 'w').write('#include <AesiMultiprecision/Aeu.h>\n#include <AesiMultiprecision/Aesi.h>\nint main() { Aeu<128> a{}; Aesi<128> b{}; return int(a.getBlock(0) + b.getBlock(0)); }\n')
    return sh(['g++', '-std=c++20', '-w', '-I' + INC, src, '-o', src + '.out'], 300)[0] == 0

def run_units(us, th, wd, tier, seed):
    """builds and runs monitors; returns (reports, violations, errors)"""
    import specs
    stuck = threading.Event()                        # an operation that never ends answers the question: start no further monitors
    def task(u):
        if stuck.is_set(): return None
        rep = run_unit(u, build(u, th), seed, tier, wd)
        if rep['status'] == 'hang': stuck.set()
        return rep
    reps, es = pool(us, task)
    errs, violations = [], []
    for i, e in es:
        if isinstance(e, CompileError) and baseline_compiles(wd):
            violations.append({'kind': 'uncompilable', 'unit': us[i], 'W': us[i].get('widths', [0])[0], 'idx': 0, 'op': 'public operations of the monitor', 'detail': 'no longer compile: ' + str(e)[:1500], 'operands': ''})
        else: errs.append(str(e))
    for u, rep in zip(us, reps):
        if rep is None: continue
        if rep['status'] == 'fail':
            for f in rep['fails']:
                violations.append({'kind': 'mismatch', 'unit': u, 'W': f['W'], 'idx': f['idx'], 'op': f['op'], 'detail': f['detail'], 'operands': f['operands']})
        elif rep['status'] != 'ok':
            violations.append({'kind': rep['status'], 'unit': u, 'W': rep.get('W'), 'idx': rep.get('idx'), 'op': rep.get('op'), 'detail': rep['status'] + ' ' + specs.digest_stderr(rep['stderr']), 'operands': ''})
    return reps, violations, errs

def known(prop):
    res = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            if l.startswith('known: property=%s ' % prop): res.append(l.strip().split(' ', 2)[2])
    except FileNotFoundError: pass
    return res

def write_evidence(prop, tier, seed, wall, cov, assumptions, nviol):
    os.makedirs(HERE + '/evidence', exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': nviol}
    tmp = HERE + '/evidence/.%s.tmp' % prop
    json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, HERE + '/evidence/%s.json' % prop)

def save_replay(prop, n, data):
    os.makedirs(BUILD + '/replay', exist_ok=True)
    p = BUILD + '/replay/%s-%d.json' % (prop, n)
    json.dump(data, open(p, 'w'), indent=1)
    return p

def pool(tasks, fn, jobs=JOBS):
    """fn over tasks in parallel; returns results in order; re-raises the first exception"""
    res = [None] * len(tasks); errs = []; q = queue.Queue()
    for i, t in enumerate(tasks): q.put((i, t))
    def worker():
        while True:
            try: i, t = q.get_nowait()
            except queue.Empty: return
            try: res[i] = fn(t)
            except Exception as ex: errs.append((i, ex))
    ths = [threading.Thread(target=worker) for _ in range(min(jobs, len(tasks)))]
    for t in ths: t.start()
    for t in ths: t.join()
    return res, errs

def check(prop, tier, seed):
    import specs
    t0 = time.time()
    th = tree_hash(); prune()
    spec = specs.get(prop, tier, seed)
    wd = BUILD + '/work/%s-%d' % (prop, os.getpid()); os.makedirs(wd, exist_ok=True)
    try:
        if 'custom' in spec:
            reps, extra, violations, errs = spec['custom'](sys.modules[__name__], th, wd, tier, seed)
        else:
            extra = {}
            reps, violations, errs = run_units(spec['units'], th, wd, tier, seed)
            if 'post' in spec: violations = spec['post'](sys.modules[__name__], th, wd, tier, seed, spec['units'], reps, violations, extra)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    good = [r for r in reps if r]
    cov = {'evaluations': sum(r.get('evaluations', 0) for r in good), 'distinct_nontrivial': sum(r.get('distinct', 0) for r in good), 'rule': spec['rule']}
    ops, feats, samples = {}, {}, []
    for r in good:
        for k, v in r.get('ops', {}).items(): ops[k] = ops.get(k, 0) + v
        for k, v in r.get('feats', {}).items(): feats[k] = feats.get(k, 0) + v
        samples += r.get('samples', [])[-3:]
    cov['samples'] = samples[:24]
    cov['operations_observed'] = ops
    if feats: cov['events_observed'] = feats
    ws = sorted({w for u in spec.get('units', []) for w in u.get('widths', [])})
    if ws: cov['widths'] = ws
    cov['monitor_processes'] = len(good)
    cov.update(extra)
    # known findings suppress exactly what they list
    kn = known(prop); left = []
    for v in violations:
        text = '%s W=%s %s %s' % (v.get('op'), v.get('W'), v.get('operands'), v.get('detail'))
        hit = [k for k in kn if k in text]
        if hit: print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
        else: left.append(v)
    wall = time.time() - t0
    write_evidence(prop, tier, seed, wall, cov, spec.get('assumptions', []), len(left))
    for e in errs: print('ERROR: ' + e)
    for n, v in enumerate(left[:10]):
        p = save_replay(prop, n, dict(v, property=prop, seed=seed, tier=tier))
        print('%s: op=[%s] W=%s case=%s: %s\n   operands: %s' % (v['kind'], v.get('op'), v.get('W'), v.get('idx'), v.get('detail'), v.get('operands')))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    if left: return 1
    if errs: return 2
    print('%s: held on %d evaluations (%d distinct non-trivial) in %.1f s' % (prop, cov['evaluations'], cov['distinct_nontrivial'], wall))
    return 0

def replay(path):
    v = json.load(open(path)); th = tree_hash()
    print('property=%s op=[%s] W=%s case=%s\n  %s\n  operands: %s' % (v['property'], v.get('op'), v.get('W'), v.get('idx'), v.get('detail'), v.get('operands')))
    u = v.get('unit')
    if not isinstance(u, dict): return 0
    exe = build(u, th)
    cmd = u.get('wrap', []) + [exe] + u.get('args', []) + ['--seed', str(v['seed']), '--tier', v['tier'], '--only', str(v['W']), str(v['idx'])]
    print('$ ' + ' '.join(cmd)); sys.stdout.flush()
    e = dict(os.environ); e.update(u.get('env') or {})
    return subprocess.call(cmd, env=e)

def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']: return replay(a[1])
    if a[:1] == ['--setup']:
        for t in ('g++', 'clang++', 'python3'):
            if not shutil.which(t): print('missing tool', t); return 1
        os.makedirs(BUILD, exist_ok=True)
        import specs
        print('setup ok: %d checks' % len(specs.ALL)); return 0
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try: return check(a[0], tier, seed)
    except CheckError as e:
        print('ERROR: %s' % e); return 2

if __name__ == '__main__': sys.exit(main())
