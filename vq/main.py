"""python -m vq.main <ID> [--tier quick|thorough] [--replay FILE]

Builds qmeq from /repo, runs the regression cases and the generated-input search of one property in parallel
worker processes, writes evidence/<ID>.json and prints the verdict.

exit 0: the property held on everything explored; exit 1 with a VIOLATION line: it is broken;
exit 2: the check itself could not run."""

import argparse
import concurrent.futures
import glob
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import boot

VERIF = boot.VERIF


def worker_env(tree, deps, threads=1):
    env = dict(os.environ)
    env.update(PYTHONPATH=os.pathsep.join([tree, VERIF, deps]), VQ_TREE=tree, PYTHONHASHSEED='0',
               OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY='passive', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1')
    return env


# when some search has found a violation, the others get this much longer (the verdict is then known)
GRACE_S = 60.0
# a case on which a worker timed out is repeated alone for this long
HANG_S = 150
FOUND = threading.Event()


def run_worker(args, tree, deps, scratch, tag, timeout, threads=1):
    if FOUND.is_set() and args[0] == 'explore':
        return dict(timeout=True, not_started=True)
    out = os.path.join(scratch, tag + '.json')
    err = os.path.join(scratch, tag + '.err')
    with open(err, 'w') as ferr:
        p = subprocess.Popen([boot.PY, '-m', 'vq.worker'] + [str(a) for a in args] + [out],
                             cwd=scratch, env=worker_env(tree, deps, threads), stdout=subprocess.DEVNULL, stderr=ferr)
        end = time.time()+timeout
        found_at = None
        while True:
            try:
                rc = p.wait(timeout=1.0)
                break
            except subprocess.TimeoutExpired:
                now = time.time()
                if FOUND.is_set() and found_at is None:
                    found_at = now
                if now > end or (found_at is not None and now > found_at+GRACE_S):
                    p.kill()
                    p.wait()
                    return dict(timeout=True)
    if os.path.isfile(out):
        with open(out) as f:
            return json.load(f)
    with open(err) as f:
        tail = f.read()[-2000:]
    if rc < 0:
        return dict(signal=-rc, stderr=tail)
    return dict(error='worker ended with %s and no result\n%s' % (rc, tail))


def seed_of(*parts):
    return int(hashlib.sha256(repr(parts).encode()).hexdigest()[:12], 16)


def load_known():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)


def write_replay(prop, sub, case, message):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    rep = dict(property=prop, subcheck=sub, case=case, message=message)
    h = hashlib.sha256(json.dumps([prop, sub, case], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, '%s-%s-%s.json' % (prop, sub, h))
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
        f.write('\n')
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', choices=['quick', 'thorough'], default=None)
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run only this sub-check (development)')
    ap.add_argument('--scale', type=float, default=1.0, help='multiply the case counts (development)')
    args = ap.parse_args(argv)
    prop = args.property
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = seed_of(os.environ['VERIF_SEED'])
    t0 = time.time()
    budget = float(os.environ.get('VQ_BUDGET_S', '420' if tier == 'quick' else '3000'))
    scratch = tempfile.mkdtemp(prefix='vq-%s-' % prop)
    try:
        deps = boot.ensure_deps()
        tree = boot.build(os.path.join(scratch, 'tree'))
        if args.replay:
            sys.path.insert(0, deps)
            sys.path.insert(0, tree)
            mod = importlib.import_module('vq.props.' + prop.lower())
            with open(args.replay) as f:
                name = json.load(f)['subcheck']
            threads = [sub.threads for sub in mod.SUBCHECKS if sub.name == name]
            r = run_worker(['replay', os.path.abspath(args.replay)], tree, deps, scratch, 'replay', 600,
                           threads[0] if threads else 1)
            print(json.dumps(r, indent=1).replace('\\n', '\n'))
            if r.get('status') == 'violation' or 'signal' in r:
                print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(args.replay)))
                return 1
            return 0 if r.get('status') in ('ok', 'skip') else 2
        return check(prop, tier, seed, budget, scratch, tree, deps, args, t0)
    except boot.HarnessError as e:
        print('ERROR: ' + str(e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, budget, scratch, tree, deps, args, t0):
    sys.path.insert(0, deps)
    sys.path.insert(0, tree)
    mod = importlib.import_module('vq.props.' + prop.lower())
    known = [k for k in load_known() if k['property'] == prop and k.get('status') == 'open']
    jobs = []
    for path in sorted(glob.glob(os.path.join(VERIF, 'regress', prop, '*.json'))):
        jobs.append(('regress', path, ['replay', path], None))
    for i, k in enumerate(known):
        path = os.path.join(scratch, 'known-%d.json' % i)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, subcheck=k['subcheck'], case=k['case']), f)
        jobs.append(('known', k, ['replay', path], None))
    searches = []
    for sub in mod.SUBCHECKS:
        if args.only and sub.name != args.only:
            continue
        total = sub.quick if tier == 'quick' else sub.thorough
        shards = sub.shards if tier == 'quick' else sub.tshards
        n = max(1, int(-(-total * args.scale // shards)))
        for shard in range(shards):
            progress = os.path.join(scratch, 'progress-%s-%d' % (sub.name, shard))
            s = seed_of(seed, prop, sub.name, shard)
            searches.append(('search', (sub.name, progress),
                             ['explore', prop, sub.name, s, n, budget, progress], n))
    jobs += searches
    violations = []     # (sub, case, message)
    hung = []           # (sub, case)
    errors = []
    findings = []
    stats = {}
    order = {sub.name: i for i, sub in enumerate(mod.SUBCHECKS)}

    threads = {sub.name: sub.threads for sub in mod.SUBCHECKS}

    def do(i):
        kind, info, cmd = jobs[i][:3]
        if kind == 'search':
            name = info[0]
        else:
            with open(cmd[1]) as f:
                name = json.load(f)['subcheck']
        r = run_worker(cmd, tree, deps, scratch, 'w%d' % i, budget + 150, threads.get(name, 1))
        if (kind == 'search' and r.get('violation')) or (kind == 'regress' and r.get('status') == 'violation'):
            FOUND.set()
        return r

    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get('VQ_JOBS', '8'))) as pool:
        results = list(pool.map(do, range(len(jobs))))
    regress_run = 0
    for (kind, info, _, n), r in zip(jobs, results):
        if 'error' in r:
            errors.append('%s %s: %s' % (kind, info if kind != 'known' else info['id'], r['error']))
            continue
        if kind == 'regress':
            regress_run += 1
            if r.get('status') == 'violation' or 'signal' in r:
                with open(info) as f:
                    rep = json.load(f)
                violations.append((rep['subcheck'], rep['case'], r.get('message', 'killed by a signal')))
        elif kind == 'known':
            if r.get('status') == 'violation' or 'signal' in r:
                findings.append(info)
        else:
            name, progress = info
            st = stats.setdefault(name, dict(evaluations=0, skipped=0, hashes=set(), samples=[], labels={}, skips={},
                                             requested=0, shards=0, budget_hit=False, wall_s=0.0))
            st['requested'] += n
            st['shards'] += 1
            if 'signal' in r or r.get('timeout'):
                # a crash of the interpreter inside the library, or a case that never returns
                case = None
                if os.path.isfile(progress):
                    with open(progress) as f:
                        try:
                            case = json.load(f)
                        except ValueError:
                            case = None
                if r.get('signal') in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS) and case is not None:
                    violations.append((name, case, 'the process died with signal %s' % r['signal']))
                elif r.get('timeout'):
                    st['budget_hit'] = True
                    if case is not None and not FOUND.is_set():
                        hung.append((name, case))
                else:
                    errors.append('%s: worker killed by signal %s\n%s' % (name, r.get('signal'), r.get('stderr')))
                continue
            st['evaluations'] += r['evaluations']
            st['skipped'] += r['skipped']
            st['hashes'].update(r['nontrivial'])
            st['samples'] += r['samples']
            st['budget_hit'] |= r['budget_hit']
            st['wall_s'] += r['wall_s']
            for k, v in r['labels'].items():
                st['labels'][k] = st['labels'].get(k, 0) + v
            for k, v in r['skips'].items():
                st['skips'][k] = st['skips'].get(k, 0) + v
            if r['violation']:
                violations.append((name, r['violation']['case'], r['violation']['message']))

    for name, case in hung[:1] if not violations else []:
        # the search was ended inside this case: does it ever return?
        path = os.path.join(scratch, 'hung.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, subcheck=name, case=case), f)
        r = run_worker(['replay', path], tree, deps, scratch, 'hung', HANG_S, threads.get(name, 1))
        if r.get('timeout'):
            violations.append((name, case, 'no result within %d s (usual cases: well below 10 s)' % HANG_S))

    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(s['evaluations'] for s in stats.values()),
            distinct_nontrivial=sum(len(s['hashes']) for s in stats.values()),
            rule=mod.RULE,
            samples=[dict(subcheck=k, case=c) for k, s in stats.items() for c in s['samples'][:2]],
            regression_cases=regress_run,
            subchecks={k: dict(rule=[x.rule for x in mod.SUBCHECKS if x.name == k][0],
                               requested=s['requested'], evaluations=s['evaluations'],
                               distinct_nontrivial=len(s['hashes']), skipped=s['skipped'], skip_reasons=s['skips'],
                               shards=s['shards'], time_budget_hit=s['budget_hit'], worker_wall_s=round(s['wall_s'], 2),
                               classes=dict(sorted(s['labels'].items())))
                       for k, s in stats.items()},
            exhaustive=False),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)

    for k, s in sorted(stats.items(), key=lambda x: order[x[0]]):
        print('%s %s: %d cases, %d distinct non-trivial, %d skipped, %.1f s of worker time%s'
              % (prop, k, s['evaluations'], len(s['hashes']), s['skipped'], s['wall_s'],
                 ' (time budget reached)' if s['budget_hit'] else ''))
    for k in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violations:
        done = set()
        for name, case, msg in violations:
            if name in done:
                continue
            done.add(name)
            rp = write_replay(prop, name, case, msg)
            print('--- %s %s: %s' % (prop, name, msg[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        for e in errors:
            print('(also) ERROR: ' + e[:500])
        return 1
    if errors:
        for e in errors:
            print('ERROR: ' + e)
        return 2
    vacuous = [k for k, s in stats.items() if s['evaluations'] == 0 and not s['budget_hit']]
    if vacuous:
        print('ERROR: no case was evaluated by ' + ', '.join(vacuous))
        return 2
    print('OK property=%s (%d regression cases, %.1f s)' % (prop, regress_run, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
