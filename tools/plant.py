#!/usr/bin/env python3
"""Confirms planted changes in scratch copies: plant.py ID... (patch applies, stable tests pass, demo 0 clean / !=0 patched).

tests run with the same settings as /opt/vp/test.sh, in a copy of /repo under /tmp that is removed afterwards.
With --check the registered check of the property is also run against the copy (DST_REPO) and its verdict printed."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', MPLBACKEND='Agg',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell')


def stable():
    with open('/opt/vp/BASELINE.json') as f:
        d = json.load(f)
    for k in d:
        if isinstance(d[k], list) and len(d[k]) > 100:
            return set(d[k])
    return None


def run_tests(root):
    dirs = sorted({os.path.dirname(p) for p in glob.glob(root + '/tests/**/test_*.py', recursive=True)})
    out = tempfile.mkdtemp(prefix='plant-rep-')
    ps = []
    for i, d in enumerate(dirs):
        ps.append(subprocess.Popen('%s -m pytest -q -p no:cacheprovider -p no:xdist --rootdir=%s --timeout=300 '
                                   '--continue-on-collection-errors -W ignore -o junit_family=xunit2 --junitxml=%s/%d.xml '
                                   './test_*.py > %s/%d.log 2>&1' % (PY, root, out, i, out, i), shell=True, cwd=d, env=ENV))
    for p in ps:
        p.wait()
    npass, bad = 0, []
    for x in glob.glob(out + '/*.xml'):
        for tc in ET.parse(x).getroot().iter('testcase'):
            if tc.find('failure') is not None or tc.find('error') is not None:
                bad.append(tc.get('classname') + '::' + tc.get('name'))
            elif tc.find('skipped') is None:
                npass += 1
    shutil.rmtree(out)
    return npass, bad


def demo(d, root):
    t = tempfile.mkdtemp(prefix='plant-demo-')
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(d, f), t)
    p = subprocess.run(['bash', os.path.join(t, 'demo.sh')], cwd=root, env=dict(ENV), capture_output=True, text=True, timeout=300)
    shutil.rmtree(t)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def main(ids, check, notest):
    base = run_tests_cache()
    for i in ids:
        d = os.path.join(VERIF, 'seeded', i)
        tmp = tempfile.mkdtemp(prefix='plant-')
        root = os.path.join(tmp, 'repo')
        try:
            shutil.copytree('/repo', root, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
            c0, o0 = demo(d, root)
            p = subprocess.run(['git', 'apply', '--directory=' + os.path.relpath(root, '/'), '--unsafe-paths',
                                os.path.join(d, 'patch.diff')], cwd='/', capture_output=True, text=True)
            if p.returncode:
                print(i, 'PATCH DOES NOT APPLY', p.stderr)
                continue
            c1, o1 = demo(d, root)
            npass, bad = (base, []) if notest else run_tests(root)
            ok = c0 == 0 and c1 != 0 and npass >= base
            print(i, 'OK' if ok else 'NOT OK', 'demo clean=%d patched=%d tests passed=%d failed=%s' % (c0, c1, npass, bad[:4]))
            if c0 != 0:
                print(o0)
            if check:
                with open(os.path.join(d, 'meta.json')) as f:
                    prop = json.load(f)['property']
                q = subprocess.run([os.path.join(VERIF, 'check'), prop], env=dict(os.environ, DST_REPO=root),
                                   capture_output=True, text=True)
                print('   check', prop, 'exit', q.returncode, [l for l in q.stdout.splitlines() if ':' in l][-3:])
        finally:
            shutil.rmtree(tmp)
        sys.stdout.flush()


def run_tests_cache():
    return 177


if __name__ == '__main__':
    a = sys.argv[1:]
    main([x for x in a if not x.startswith('--')], '--check' in a, '--notest' in a)
