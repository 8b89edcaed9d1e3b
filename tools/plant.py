#!/opt/venv/bin/python
"""Validate a planted bug and run checks against it in a scratch copy of /repo (development only; no check uses this).

tools/plant.py ID [CHECK ...]     seeded/ID/patch.diff, demo.sh, meta.json
Copies /repo to /tmp/plant-ID, applies the patch, builds, runs the stable tests, runs the demonstration on the
unchanged tree and on the copy, then the named checks (default: the property of meta.json)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    bug = sys.argv[1]
    d = os.path.join(V, 'seeded', bug)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    checks = sys.argv[2:] or [meta['property']]
    work = tempfile.mkdtemp(prefix='plant-%s-' % bug)
    try:
        copy = os.path.join(work, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        r = sh(['git', '-C', copy, 'apply', os.path.join(d, 'patch.diff')])
        if r.returncode:
            print(bug, 'PATCH FAILS', r.stdout)
            return
        env = dict(os.environ, VERIF_REPO=copy)
        code = ('from vq import boot; import shutil, glob, os; t=boot.build(%r);\n'
                'for so in glob.glob(t+"/qmeq/**/*.so", recursive=True): shutil.copyfile(so, %r+so[len(t):])'
                % (os.path.join(work, 'tree'), copy))
        r = sh(['/opt/venv/bin/python', '-c', code], cwd=V, env=env)
        if r.returncode:
            print(bug, 'BUILD FAILS', r.stdout[-1500:])
            return
        out = os.path.join(work, 'junit.xml')
        r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'qmeq/tests'], cwd=copy)
        tests = 'tests pass' if ' failed' not in r.stdout and 'error' not in r.stdout else 'TESTS FAIL ' + '; '.join(
            x for x in r.stdout.splitlines() if x.startswith('FAILED'))[:300]
        demo = os.path.join(d, 'demo.sh')
        a = sh(['bash', demo], cwd='/repo')
        b = sh(['bash', demo], cwd=copy)
        dm = 'demo ok' if a.returncode == 0 and b.returncode != 0 else 'DEMO BAD clean=%d (%s) patched=%d (%s)' % (
            a.returncode, a.stdout[-300:], b.returncode, b.stdout[-300:])
        print(bug, '|', tests, '|', dm, flush=True)
        env['VQ_SCRATCH_EVIDENCE'] = '1'
        for c in checks:
            r = sh(['./check', c, 'quick'], cwd=V, env=env)
            last = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', '---', 'ERROR'))]
            print('   ', c, {0: 'MISSED', 1: 'caught', 2: 'ERROR'}.get(r.returncode), '; '.join(x[:150] for x in last[:4]), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
