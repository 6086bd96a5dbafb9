#!/usr/bin/env python3
"""Plants the bugs of plants.py (and others found in /verif/seeded) in scratch copies of /repo, never in /repo itself.
  plant.py make ID...    apply the edit in a copy, run the repository's build and tests there, run the demonstration on
                         the clean and on the changed tree, and write /verif/seeded/ID when everything is as required
  plant.py catch ID[=PROP,...]...   run quick checks against the changed copy and print what they say
The copy is bind-mounted over /repo in a private namespace, so the real tree is never touched."""
import sys, os, json, subprocess, shutil, re, tempfile, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BASE = 'ea1b1f2'
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build; exit 0 on the unchanged tree
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
%(cc)s -std=c++20 -w %(flags)s -I"$PWD/include" -I"$here" "$here"/demo*.cpp -o "$tmp/demo" %(libs)s || { echo "does not compile"; exit 1; }
%(env)stimeout 120 "$tmp/demo"
'''
PRE = '''#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
#include <cstdio>
#include <sstream>
#include <string>
#include <limits>
#include <stdexcept>
#define CHECK(...) do { if(!(__VA_ARGS__)) { std::puts("FAIL: " #__VA_ARGS__); return 1; } } while(0)
'''
def run(cmd, timeout=1200, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **k)
def copy():
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp'); r = d + '/repo'
    run(['cp', '-a', '/repo', r]); return d, r
def inns(r, script, timeout=1500):
    # bind the copy over /repo in a private mount namespace
    return run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (r, script)], timeout)
def originals():
    return {f: run(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', f]).stdout.splitlines()
            for f in ('include/AesiMultiprecision/Aeu.h', 'include/AesiMultiprecision/Aesi.h', 'ci/benchmarking/make_summary.py')}
def make(b):
    d, r = copy()
    try:
        orig = originals()
        for f, old, new in b['edits']:
            p = r + '/' + f; s = open(p).read()
            if s.count(old) != 1: return 'edit matches %d times: %r' % (s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        patch = run(['git', '-C', r, 'diff', '-U3']).stdout
        # removed lines must belong to the original repository
        f = None; n = 0; bad = []
        for l in patch.splitlines():
            if l.startswith('--- a/'): f = l[6:]
            elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                if BASE not in orig[f][n - 1].split()[0]: bad.append(orig[f][n - 1])
                n += 1
            elif l.startswith(' '): n += 1
        if bad: print('   note: touches own lines:', *bad, sep='\n     ')
        sd = V + '/seeded/' + b['id']; td = d + '/demo'; os.makedirs(td)
        open(td + '/patch.diff', 'w').write(patch)
        if 'demo_sh' in b: open(td + '/demo.sh', 'w').write(b['demo_sh'])
        else: open(td + '/demo.sh', 'w').write(DEMO % dict(cc=b.get('cc', 'g++'), flags=b.get('flags', '-O1'), libs=b.get('libs', ''), env=b.get('env', '')))
        os.chmod(td + '/demo.sh', 0o755)
        if 'demo' in b: open(td + '/demo.cpp', 'w').write(PRE + b['demo'])
        for fn, t in b.get('files', {}).items():
            os.makedirs(os.path.dirname(td + '/' + fn), exist_ok=True); open(td + '/' + fn, 'w').write(t)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(td + '/meta.json', 'w'), indent=1)
        c = run(['bash', td + '/demo.sh'], cwd='/repo')
        if c.returncode: return 'demo fails on the clean tree: ' + c.stdout[-1500:]
        c = run(['bash', td + '/demo.sh'], cwd=r)
        if not c.returncode: return 'demo passes on the changed tree'
        print('   demo says:', c.stdout.strip()[-200:])
        t = inns(r, 'bash /opt/vp/build.sh > %s/build.log 2>&1 && bash /opt/vp/test.sh %s/out.json > %s/test.log 2>&1' % (d, d, d))
        try: out = json.load(open(d + '/out.json'))
        except Exception as e: return 'no test result %s' % open(d + '/build.log').read()[-1500:]
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = set(base.get('passed') or base.get('stable') or base.get('tests') or [])
        miss = want - set(out['passed'])
        if miss or not want: return 'tests failing: %s' % sorted(miss)[:5]
        os.makedirs(V + '/seeded', exist_ok=True)
        if os.path.exists(sd): shutil.rmtree(sd)
        shutil.copytree(td, sd)
        return 'ok'
    finally: shutil.rmtree(d, ignore_errors=True)
def catch(i, props):
    sd = V + '/seeded/' + i
    if not props: props = [json.load(open(sd + '/meta.json'))['property']]
    d, r = copy()
    try:
        a = run(['git', '-C', r, 'apply', sd + '/patch.diff'])
        if a.returncode: return 'patch does not apply: ' + a.stdout
        run(['bash', '-c', 'git -C %s archive HEAD | (mkdir -p %s/verif && tar -x -C %s/verif); cp -r %s/*.py %s/harness %s/verif/ ; mkdir -p %s/verif/evidence' % (V, d, d, V, V, d, d)])
        res = []
        for p in props:
            t0 = time.time()
            o = inns(r, 'mount --bind %s/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py %s quick' % (d, p))
            vl = [l for l in o.stdout.splitlines() if l.startswith('VIOLATION')]
            ok = o.returncode == 1 and any('property=%s ' % p in l for l in vl)
            res.append('%s: %s (rc %s, %.0f s) %s' % (p, 'CAUGHT' if ok else 'MISSED', o.returncode, time.time() - t0, '' if ok and '-v' not in sys.argv else o.stdout[-800:]))
        return '\n   '.join(res)
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
    import plants
    B = {b['id']: b for b in plants.BUGS}
    if not ids: ids = list(B) if cmd == 'make' else sorted(os.listdir(V + '/seeded'))
    for i in ids:
        i, _, ps = i.partition('=')
        try: print(i, make(B[i]) if cmd == 'make' else catch(i, [p for p in ps.split(',') if p]), flush=True)
        except Exception as e: print(i, 'EXC', repr(e), flush=True)
