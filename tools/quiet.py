#!/usr/bin/env python3
"""quiet.py DIR|PATCH [PROP...]: runs the quick checks against a changed copy of /repo that should keep its behaviour; every check has to stay quiet.
DIR is a copy of the repository, PATCH a diff against /repo's HEAD (the ones tried are in tools/refactorings)."""
import sys, os, json, time, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import run, inns, copy, V
def main(what, props):
    d, r = copy()
    try:
        if os.path.isdir(what): shutil.rmtree(r); run(['cp', '-a', what, r])
        else:
            a = run(['git', '-C', r, 'apply', os.path.abspath(what)])
            if a.returncode: print('does not apply', a.stdout); return 2
        if not props:
            t = inns(r, 'bash /opt/vp/build.sh > %s/build.log 2>&1 && bash /opt/vp/test.sh %s/out.json > %s/test.log 2>&1' % (d, d, d))
            try: out = json.load(open(d + '/out.json'))
            except Exception: print('no test result', open(d + '/build.log').read()[-1500:]); return 2
            base = json.load(open('/opt/vp/BASELINE.json')); want = set(base.get('passed') or base.get('stable') or base.get('tests') or [])
            print('tests missing:', sorted(want - set(out['passed']))[:5], flush=True)
            props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
        os.makedirs(d + '/verif/evidence'); run(['bash', '-c', 'cp -r %s/*.py %s/*.txt %s/*.jsonl %s/MANIFEST.json %s/harness %s/verif/' % (V, V, V, V, V, d)])
        bad = 0
        for p in props:
            t0 = time.time()
            o = inns(r, 'mount --bind %s/verif /verif && cd /verif && VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3 run.py %s quick' % (d, os.environ.get('VERIF_SEED', '1'), p))
            if o.returncode: bad = 1
            print(p, 'quiet' if o.returncode == 0 else 'ALARM rc %d' % o.returncode, '%.0f s' % (time.time() - t0), '' if o.returncode == 0 else '\n' + o.stdout[-1500:], flush=True)
        return bad
    finally: shutil.rmtree(d, ignore_errors=True)
sys.exit(main(sys.argv[1], sys.argv[2:]))
