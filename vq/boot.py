"""Offline bootstrap: Hypothesis from the wheelhouse, and qmeq built from /repo's current tree.

Nothing is written into /repo.  The Python tree is copied into a scratch directory and every Cython
extension is compiled there from the current .pyx/.pxd contents.  Compiled extensions are reused only
when the hash of everything that goes into them is unchanged (own cache under /verif/.cache, or the
in-place build of /repo when the hashes its build recorded match the current sources)."""

import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
WHEELS = '/opt/veriftools/wheels'
PY = '/opt/venv/bin/python'


class HarnessError(Exception):
    pass


def ensure_deps():
    """Directory holding hypothesis (installed from the offline wheelhouse when absent)."""
    deps = os.path.join(CACHE, 'deps')
    if os.path.isfile(os.path.join(deps, 'hypothesis', '__init__.py')):
        return deps
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=CACHE, prefix='deps-')
    res = subprocess.run([PY, '-m', 'pip', 'install', '-q', '--no-index', '--find-links', WHEELS,
                          '--disable-pip-version-check', '--root-user-action=ignore',
                          '--no-compile', '--target', tmp, 'hypothesis'],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if res.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise HarnessError('cannot install hypothesis offline:\n' + res.stdout)
    try:
        os.rename(tmp, deps)
    except OSError:
        # another process was faster
        shutil.rmtree(tmp, ignore_errors=True)
    return deps


def _digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _repo_build_is_current(pyx, shared):
    """Which .pyx of /repo have an in-place extension that the build recorded as current."""
    try:
        with open(os.path.join(REPO, 'build', 'vp-hashes.json')) as f:
            state = json.load(f)
        if state['shared'] != shared:
            return set()
        return {p for p, h in pyx.items() if state['pyx'].get(p) == h}
    except (OSError, ValueError, KeyError, TypeError):
        return set()


def build(dest):
    """Copy qmeq into dest and build its extensions there.  Returns dest."""
    import numpy
    import scipy
    import Cython
    src = os.path.join(REPO, 'qmeq')
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    shutil.copytree(src, os.path.join(dest, 'qmeq'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '*.o', '__pycache__', 'tests'))
    allpyx = sorted(glob.glob(os.path.join(dest, 'qmeq', '**', '*.pyx'), recursive=True))
    pyx = {os.path.relpath(p, dest): _digest(p) for p in allpyx}
    shared = {os.path.relpath(p, REPO): _digest(p)
              for e in ('.pxd', '.pxi')
              for p in glob.glob(os.path.join(src, '**', '*' + e), recursive=True)}
    shared['setup.py'] = _digest(os.path.join(REPO, 'setup.py'))
    toolchain = [sys.version, Cython.__version__, numpy.__version__, scipy.__version__]
    shared['toolchain'] = toolchain
    current = _repo_build_is_current(pyx, shared)
    extcache = os.path.join(CACHE, 'ext')
    os.makedirs(extcache, exist_ok=True)
    flags = ['-shared', '-fPIC', '-pthread', '-fno-strict-overflow', '-fwrapv', '-DNDEBUG', '-O2', '-w',
             '-fopenmp', '-I' + numpy.get_include(), '-I' + sysconfig.get_paths()['include']]
    base = hashlib.sha256(json.dumps([shared, flags], sort_keys=True).encode()).hexdigest()
    todo = []
    for rel, h in pyx.items():
        so = os.path.join(dest, rel[:-4] + suffix)
        key = os.path.join(extcache, hashlib.sha256((base + rel + h).encode()).hexdigest() + '.so')
        inplace = os.path.join(REPO, rel[:-4] + suffix)
        if os.path.isfile(key):
            shutil.copyfile(key, so)
        elif rel in current and os.path.isfile(inplace):
            shutil.copyfile(inplace, so)
        else:
            todo.append((rel, so, key))

    def run_all(cmds):
        procs = [(rel, subprocess.Popen(cmd, cwd=dest, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
                 for rel, cmd in cmds]
        for rel, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise HarnessError('building %s failed:\n%s' % (rel, out[-3000:]))

    run_all([(rel, [PY, '-m', 'cython', '-2', rel, '-o', rel[:-4] + '.c']) for rel, so, key in todo])
    run_all([(rel, ['gcc'] + flags + [rel[:-4] + '.c', '-o', so]) for rel, so, key in todo])
    for rel, so, key in todo:
        os.remove(os.path.join(dest, rel[:-4] + '.c'))
        tmp = '%s.%d' % (key, os.getpid())
        shutil.copyfile(so, tmp)
        os.replace(tmp, key)
    return dest


if __name__ == '__main__':
    # setup_cmd: prepare the dependencies and try a build
    print('deps:', ensure_deps())
    d = tempfile.mkdtemp(prefix='vq-setup-')
    try:
        build(d)
        print('build: ok')
    finally:
        shutil.rmtree(d, ignore_errors=True)
