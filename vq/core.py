"""Sub-check objects, the per-case context, and the generated-input search of one worker."""

import hashlib
import json
import os
import sys
import time
import traceback


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never a verdict)."""


class Ctx(object):
    """What a check function reports about one case."""

    def __init__(self):
        self.labels = []
        self.nontriv = False

    def label(self, *labels):
        self.labels.extend(labels)

    def nontrivial(self, flag=True):
        self.nontriv = self.nontriv or bool(flag)

    def skip(self, why):
        raise Skip(why)

    def fail(self, msg):
        raise Violation(msg)

    def require(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, got, want, tol, msg):
        """Largest absolute difference at most tol; nan or inf on either side only when on both."""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation('%s: shape %s instead of %s' % (msg, got.shape, want.shape))
        if got.size == 0:
            return
        bad = ~np.isfinite(got)
        badw = ~np.isfinite(want)
        if (bad != badw).any():
            raise Violation('%s: not finite where finite was expected (or the reverse): got %s, want %s'
                            % (msg, got, want))
        if bad.all():
            return
        diff = np.abs(got[~bad] - want[~bad]).max()
        if not diff <= tol:
            raise Violation('%s: differs by %.6g (allowed %.3g)\n got  %s\n want %s'
                            % (msg, diff, tol, got, want))


class Sub(object):
    """One executable statement about the property: a generator, an oracle and case counts."""

    def __init__(self, name, strategy, check, quick, thorough, rule, shards=1, tshards=None, threads=1):
        self.name = name
        self.strategy = strategy        # () -> hypothesis strategy of JSON-able cases
        self.check = check              # (ctx, case) -> None
        self.quick = quick              # cases over all shards
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.tshards = tshards or max(shards, 4)
        self.threads = threads          # OpenMP threads of the worker process


def from_qmeq(exc):
    """Was the exception raised while code of qmeq was running (at any depth)?"""
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename.replace(os.sep, '/')
        if '/qmeq/' in fn or fn.startswith('qmeq/'):
            return True
        tb = tb.tb_next
    return False


IGNORED = []


def _unraisable(u):
    """Compiled functions without a return value cannot propagate exceptions: Python only reports them here."""
    IGNORED.append('%s: %s (%s)' % (getattr(u.exc_type, '__name__', u.exc_type), u.exc_value, u.object))


def run_case(sub, case):
    """Evaluate one case.  Returns (status, ctx, message), status in ok/skip/violation."""
    ctx = Ctx()
    del IGNORED[:]
    sys.unraisablehook = _unraisable
    try:
        sub.check(ctx, case)
    except Skip as e:
        return 'skip', ctx, str(e)
    except Violation as e:
        return 'violation', ctx, str(e)
    except (ImportError, MemoryError, OSError):
        raise
    except Exception as e:
        # raised by the library, or by the oracle because the library returned something malformed
        who = 'the library raised on an accepted input' if from_qmeq(e) else 'malformed result of the library'
        return 'violation', ctx, (who + ':\n'
                                  + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-8:]))
    if IGNORED:
        return 'violation', ctx, 'an exception was ignored inside compiled code: ' + IGNORED[0]
    return 'ok', ctx, ''


class Found(Exception):
    pass


def canonical(case):
    return json.dumps(case, sort_keys=True)


def explore(prop, sub, seed, ncases, budget_s, progress=None, shrink_s=45.0):
    """Generated-input search.  Pure function of the code, the seed and the case count
    (the time budget only ends exploration early, it never decides)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    t0 = time.time()
    res = dict(sub=sub.name, evaluations=0, skipped=0, budget_hit=False, nontrivial=[], samples=[],
               labels={}, skips={}, violation=None)
    seen = set()
    failing = {}
    state = dict(found_at=None)

    def test(case):
        key = canonical(case)
        now = time.time()
        if state['found_at'] is None:
            if now - t0 > budget_s:
                res['budget_hit'] = True
                return
        elif key not in failing and now - state['found_at'] > shrink_s:
            return
        case = json.loads(key)
        if progress is not None:
            with open(progress, 'w') as f:
                f.write(key)
        status, ctx, msg = run_case(sub, case)
        if state['found_at'] is None:
            if status == 'skip':
                res['skipped'] += 1
                res['skips'][msg] = res['skips'].get(msg, 0) + 1
            else:
                res['evaluations'] += 1
                for lab in set(ctx.labels):
                    res['labels'][lab] = res['labels'].get(lab, 0) + 1
                if ctx.nontriv:
                    h = hashlib.sha1(key.encode()).hexdigest()[:16]
                    if h not in seen:
                        seen.add(h)
                        if len(res['samples']) < 2:
                            res['samples'].append(case)
        if status == 'violation':
            if state['found_at'] is None:
                state['found_at'] = now
            failing[key] = msg
            raise Found(sub.name)

    wrapped = hypothesis.seed(seed)(settings(
        max_examples=ncases, deadline=None, database=None, derandomize=False,
        suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False, print_blob=False)(hypothesis.given(sub.strategy())(test)))
    try:
        wrapped()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) or not failing:
            raise
    if failing:
        key = min(failing, key=lambda k: (len(k), k))
        res['violation'] = dict(case=json.loads(key), message=failing[key])
    res['nontrivial'] = sorted(seen)
    res['wall_s'] = time.time() - t0
    return res
