"""Settings that are not available fall back as documented; failures are reported and end with their cause."""

import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from .. import common, gen
from ..core import Sub
from . import c04, c06

RULE = ('non-trivial: at least one setting had to be replaced, or a solve failed and a later one succeeded')
ASSUMPTIONS = [
    'the table of fallback values in this file is the specification; it follows the printed warnings',
    'a fallback is compared with a system for which the resulting settings were requested',
    'equations with several solutions may be reported as solved by least-squares and matrix-free methods; rounding may '
    'hide that a matrix is singular unless whole rows of it are zero']

FIRST = ['Pauli', 'Lindblad', 'Redfield', '1vN']
KNOWN = FIRST+['2vN', 'RTD']+['py'+k for k in FIRST+['2vN', 'RTD']]
WRONG_K = ['pauli', 'vN', '1VN', 'rtd', 'py2VN', 'Pauli ', '', 'ApproachPauli', '2vn', 'Bloch']
WRONG_I = ['lin', 'LIN', 'spin', 'Charge', '', 'szz', 'ssQ']
WRONG_T = [4, -1, 17, None, 'x', 2.5]
base = common.base_kerntype


def quietly(f, *args, **kw):
    """Result of f, the warnings it printed."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = f(*args, **kw)
    return r, [x for x in out.getvalue().splitlines() if x.startswith('WARNING')]


# ---- fallback values

def fall_itype(v, k):
    if base(k) == 'RTD' and k in KNOWN:
        return 1, v != 1
    ok = v in (0, 1, 2, 3)
    return (v if ok else 0), not ok


def fall_kerntype(k):
    return (k, False) if k in KNOWN else ('Pauli', True)


def fall_mfree(m, k):
    return (False, True) if m and base(k) in ('2vN', 'RTD') else (m, False)


def fall_indexing(ix, sym, k):
    w = 0
    k = base(k)
    if ix is None:
        if sym == 'spin' and k == 'RTD':
            ix, sym, w = 'charge', None, 1
        elif sym == 'spin' and k != '2vN':
            ix = 'ssq'
        else:
            ix = 'charge'
    if ix not in ('Lin', 'charge', 'sz', 'ssq'):
        ix, w = 'charge', w+1
    if (k == '2vN' and ix not in ('Lin', 'charge')) or (k == 'RTD' and ix != 'charge'):
        ix, w = 'charge', w+1
    return ix, sym, w


@st.composite
def settings(draw):
    sp = draw(c04.spinful())
    x = dict(kerntype=draw(st.one_of(st.sampled_from(KNOWN), st.sampled_from(KNOWN+['RTD', 'pyRTD', '2vN']),
                                     st.sampled_from(WRONG_K))),
             indexing=draw(st.one_of(st.sampled_from([None, 'Lin', 'charge', 'sz', 'ssq']), st.sampled_from(WRONG_I))),
             itype=draw(st.one_of(st.sampled_from([0, 1, 2, 3]), st.sampled_from(WRONG_T))),
             mfreeq=draw(st.integers(0, 2)) == 0,
             solmethod=draw(st.sampled_from([None, None, 'solve', 'lsqr', 'krylov'])),
             symq=draw(st.integers(0, 3)) > 0)
    sp['elph'] = draw(st.integers(0, 3)) == 0
    sp['itype_ph'] = draw(st.sampled_from([0, 2, 2, 1, 3, -1, None, 'x']))
    if base(x['kerntype']) in ('2vN', 'RTD') or sp['elph'] or x['mfreeq'] and draw(st.integers(0, 3)):
        # the size of these calculations
        sp['h'], sp['J'], sp['P'] = 1, 0.0, 0.0
        sp['hs'] = [y for y in sp['hs'] if y[0] == y[1] == 0]
        sp['tl'] = [y for y in sp['tl'] if y[1] == 0] or [[0, 0, .25, 0.0]]
    if x['indexing'] == 'ssq' and not sp['sym']:
        sp['B'], sp['pol'] = 0.0, 1.0
    sp['x'] = x
    sp['ops'] = draw(st.lists(st.tuples(st.sampled_from(['kerntype', 'kerntype', 'indexing', 'itype', 'itype', 'mfreeq',
                                                         'solve']), st.integers(0, 59)), max_size=6))
    return sp


def build(sp, **over):
    import qmeq
    kw = c04.spin_kwargs(sp)
    kw['kpnt'] = 12
    kw.update(over)
    if sp['elph']:
        n = 2*sp['h']
        v = {(0, i, i): .1 for i in range(n)} if kw['symmetry'] is None else {(0, i, i): .1 for i in range(sp['h'])}
        kw.update(nbaths=1, velph=v, tlst_ph={0: .7}, dband_ph={0: (0.0, 20.0)})
        return qmeq.Builder.elph(**kw)
    return qmeq.Builder.base(**kw)


def current_settings(s):
    return dict(kerntype=s.kerntype, indexing=s.indexing, symmetry=s.si.symmetry, itype=s.itype, mfreeq=s.mfreeq,
                symq=s.symq)


def same_settings(ctx, s, want, what):
    got = current_settings(s)
    for k in got:
        a, b = got[k], want[k]
        ctx.require(a == b and (a is None) == (b is None), '%s: %s is %r, expected %r' % (what, k, a, b))


def solve(s, suppress=True):
    if base(s.kerntype) == 'RTD':
        s.appr.printed_warning_ImGamma = True
    s.funcp.suppress_err, s.funcp.suppress_wrn = suppress, [True]
    kw = dict(niter=1) if base(s.kerntype) == '2vN' else {}
    return quietly(s.solve, **kw)[1]


def check_settings(ctx, sp):
    x = dict(sp['x'])
    sym = 'spin' if sp['sym'] else None
    k, w = fall_kerntype(x['kerntype'])
    it, wi = fall_itype(x['itype'], x['kerntype'])
    mf, wm = fall_mfree(x['mfreeq'], k)
    ix, sym2, wx = fall_indexing(x['indexing'], sym, k)
    warns = int(w)+int(wi)+int(wm)+wx
    over = {}
    want = dict(kerntype=k, indexing=ix, symmetry=sym2, itype=it, mfreeq=mf, symq=x['symq'])
    if sp['elph']:
        ok = sp['itype_ph'] in (0, 2)
        want['itype_ph'] = sp['itype_ph'] if ok else 0
        warns += not ok
        over['itype_ph'] = sp['itype_ph']
        if base(k) == 'RTD':
            # not available with phonons: rejected.  (2vN is there, without the phonons)
            try:
                quietly(build, sp, **dict(x, **over))
            except KeyError:
                ctx.label('rejected')
                ctx.nontrivial()
                return
            ctx.fail('%s accepted with phonons' % k)
    s, got = quietly(build, sp, **dict(x, **over))
    what = 'requested %s, symmetry %s' % (dict(x, **over), sym)
    same_settings(ctx, s, want, what)
    if sp['elph']:
        ctx.require(s.itype_ph == want['itype_ph'], '%s: itype_ph is %r' % (what, s.itype_ph))
    ctx.require(len(got) == warns, '%s: %d settings replaced, but the warnings are %s' % (what, warns, got))
    ctx.label('%d replaced' % warns, k, str(ix))
    ctx.nontrivial(warns)
    done = 0
    for op, v in list(map(tuple, sp['ops']))+[('solve', 0)]:
        if op == 'solve':
            if sym and sym2 is None:
                # the fallback without the symmetry leaves half of the leads without a temperature
                continue
            wr = solve(s)
            f = dict(want, solmethod=x['solmethod'])
            u, wu = quietly(build, sp, **f)
            ctx.require(not wu, 'warnings %s for valid settings %s' % (wu, f))
            wr2 = solve(u)
            same_settings(ctx, s, want, 'after %d operations of %s' % (done, sp['ops']))
            if not done:
                lsq = not want['mfreeq'] and not want['symq'] and x['solmethod'] == 'solve'
                ctx.require(len(wr) == len(wr2) == int(lsq), 'warnings of the solution: %s' % wr)
            equal(ctx, s, u, 'settings %s after %d operations' % (f, done))
        elif op == 'indexing':
            vals = [None]+['Lin', 'charge', 'sz', 'ssq']+WRONG_I
            v = vals[v % len(vals)]
            if v is not None:
                _, got = quietly(setattr, s, 'indexing', v)
                ctx.require(len(got) == int(v != want['indexing']), 'indexing=%r: warnings %s' % (v, got))
        elif op == 'itype':
            vals = [0, 1, 2, 3]+WRONG_T
            v = vals[v % len(vals)]
            want['itype'], wi = fall_itype(v, want['kerntype'])
            _, got = quietly(setattr, s, 'itype', v)
            ctx.require(len(got) == int(wi), 'itype=%r for %s: warnings %s' % (v, want['kerntype'], got))
        elif op == 'mfreeq':
            v = bool(v % 2)
            want['mfreeq'], wm = fall_mfree(v, want['kerntype'])
            x['solmethod'] = None
            s.solmethod = None
            _, got = quietly(setattr, s, 'mfreeq', v)
            ctx.require(len(got) == int(wm), 'mfreeq=%r for %s: warnings %s' % (v, want['kerntype'], got))
        else:
            vals = KNOWN+WRONG_K
            v = vals[v % len(vals)]
            old = want['kerntype']
            if v in KNOWN and sp['h'] == 2 and base(v) in ('2vN', 'RTD'):
                continue
            bad = v not in KNOWN or (sp['elph'] and base(v) == 'RTD')
            if v != old and base(v) in ('2vN', 'RTD') and want['indexing'] in ('sz', 'ssq'):
                bad = True
            if base(v) == 'RTD' and want['indexing'] == 'Lin' and v != old:
                # (states of one charge are not consecutive; the builder replaces it only from the start)
                continue
            try:
                _, got = quietly(setattr, s, 'kerntype', v)
            except (KeyError, ValueError, IndexError):
                ctx.require(bad, 'kerntype=%r rejected' % v)
                ctx.label('change rejected')
            else:
                if v == 'pauli':
                    # (the first letter is made a capital)
                    v, bad = 'Pauli', False
                ctx.require(not bad, 'kerntype=%r accepted' % v)
                if v != old:
                    want['kerntype'] = v
                    want['itype'], wi = fall_itype(want['itype'], v)
                    want['mfreeq'], wm = fall_mfree(want['mfreeq'], v)
                    ctx.require(len(got) == int(wi)+int(wm), 'kerntype=%r: warnings %s' % (v, got))
                    if wm:
                        x['solmethod'] = None
                        s.solmethod = None
                s.phi0_init = None
        done += 1
        if op != 'solve':
            same_settings(ctx, s, want, 'after %s=%r' % (op, v))


def equal(ctx, s, u, what):
    """Results of the same calculation."""
    ctx.require(bool(s.success) == bool(u.success), '%s: success %s instead of %s' % (what, s.success, u.success))
    names = [('density matrix', 'phi0'), ('current', 'current'), ('energy current', 'energy_current'),
             ('heat current', 'heat_current')]
    if not u.success:
        return
    if s.mfreeq:
        d = 1e-4
    else:
        d = 1e-9
    lo, hi = 1, 1
    if not s.mfreeq:
        u.make_kern_copy = True
        solve(u)
        lo, hi = common.conditioning(u)
        if lo < 1e-4*min(hi, 1):
            ctx.label('nearly singular')
            return
    else:
        return
    for name, a in names:
        p, q = np.array(getattr(s, a)), np.array(getattr(u, a))
        ctx.require(p.shape == q.shape, '%s: %s has shape %s instead of %s' % (what, name, p.shape, q.shape))
        m = np.isfinite(q)
        ctx.require((np.isfinite(p) == m).all(), '%s: %s' % (what, name))
        ctx.close(p[m], q[m], d*(1+np.abs(q[m]).max(initial=0)), '%s: %s' % (what, name))


# ---- failures

CAUSES = ['tunnelling', 'energy', 'mu', 'T', 'amplitude', 'band', 'norm_row', 'solmethod', 'phi0_init', 'phonon', 'coulomb', 'edge']


@st.composite
def failures(draw):
    spec = draw(gen.system(nmax=2, lmax=2, itypes=(0, 1, 2, 3), D=50.0))
    spec['tl'] = [[l, i, (.125 if a >= 0 else -.125)+a, b] for l, i, a, b in spec['tl']]
    have = [y[:2] for y in spec['tl']]
    for i in range(spec['n']):
        if [0, i] not in have:
            spec['tl'].append([0, i, .25, 0.0])
    k = draw(st.sampled_from(FIRST*4+['2vN', 'RTD']))
    # (the digamma function of pyRTD does not return for nan within minutes)
    spec['k'] = ('py' if draw(st.integers(0, 3)) == 0 and k != 'RTD' else '')+k
    spec['ph'] = draw(gen.phonons(spec['n'], nbmax=1)) if k in FIRST and draw(st.integers(0, 3)) == 0 else None
    if k == 'RTD':
        spec['T'] = [spec['T'][0]]*spec['nl']
        spec['hs'] = [[i, j, a, 0.0] for i, j, a, b in spec['hs']]
        spec['tl'] = [[i, j, a, 0.0] for i, j, a, b in spec['tl']]
    if k in ('2vN', 'RTD'):
        spec['itype'] = 1
    spec['mfree'] = k in FIRST and draw(st.integers(0, 3)) == 0
    if spec['k'].startswith('py') and k in FIRST and (spec['itype'] == 1 or spec['mfree']):
        # (the digamma function of the Python version takes seconds for nan; so do solvers which do not converge)
        spec['itype'] = 3 if spec['itype'] == 1 else 2
    spec['symq'] = spec['mfree'] or draw(st.integers(0, 3)) > 0
    spec['indexing'] = 'charge'
    ops = []
    for i in range(draw(st.integers(1, 3))):
        ops.append([draw(st.sampled_from(CAUSES)), draw(st.sampled_from(['nan', 'nan', 'inf', '-inf', '0'])),
                    draw(st.integers(0, 7)), draw(st.booleans())])
    spec['ops'] = ops
    return spec


def make(spec):
    import qmeq
    kw = dict(kerntype=spec['k'], indexing=spec['indexing'], mfreeq=spec['mfree'], symq=spec['symq'])
    if base(spec['k']) == '2vN':
        kw['kpnt'] = 16
    if spec['ph']:
        s = gen.build_elph(spec, spec['ph'], **kw)
    else:
        s = qmeq.Builder.base(**gen.kwargs(spec, **kw))
    return s


def mends(spec, s, op):
    """Introduces the cause of a failure.  Returns what undoes it, and whether failure is certain ('fail'), certain to
    raise ('raise'), or possible (None); None when it does not apply."""
    cause, v, x, _ = op
    val = float(v)
    nan = val != val
    n, nl = spec['n'], spec['nl']
    # (with sharp band edges the comparisons with nan say that the level lies outside of the band)
    sure = 'fail' if nan and (base(spec['k']) not in FIRST or spec['itype'] in (1, 3)) else None
    if cause == 'tunnelling':
        tl = gen.tl_dict(spec)
        s.change(tleads={k: 0.0 for k in tl})
        # every equation for the populations is empty.  (2vN and RTD: not within reach of this argument)
        certain = 'fail' if base(spec['k']) in FIRST and not spec['ph'] and not spec['mfree'] and spec['symq'] else None
        return (lambda: s.change(tleads=tl)), certain
    if cause == 'energy':
        i = x % n
        old = gen.hs_dict(spec)[(i, i)]
        s.change(hsingle={(i, i): val})
        return (lambda: s.change(hsingle={(i, i): old})), sure
    if cause == 'coulomb':
        if n < 2:
            return None
        old = gen.co_dict(spec).get((0, 1, 1, 0), 0.0)
        s.change(coulomb={(0, 1, 1, 0): val})
        return (lambda: s.change(coulomb={(0, 1, 1, 0): old})), sure
    if cause == 'mu':
        if v == '0':
            return None
        l = x % nl
        s.change(mulst={0: val})
        return (lambda: s.change(mulst={0: spec['mu'][0]})), sure
    if cause == 'T':
        s.change(tlst={0: val})
        return (lambda: s.change(tlst={0: spec['T'][0]})), sure
    if cause == 'amplitude':
        if v == '0':
            return None
        s.change(tleads={(0, 0): val})
        return (lambda: s.change(tleads={(0, 0): gen.tl_dict(spec)[(0, 0)]})), ('fail' if nan else None)
    if cause == 'band':
        if not nan or spec['itype'] == 3 and base(spec['k']) in FIRST:
            return None
        s.change(dlst={0: [-val, val]})
        # Lindblad, Pauli: comparisons with nan are false, the level lies outside of the band
        return (lambda: s.change(dlst={0: [-50.0, 50.0]})), None
    if cause == 'edge':
        # a level exactly at the edge of the band: its principal value integral diverges
        if n != 1 or spec['ph']:
            return None
        e = gen.hs_dict(spec)[(0, 0)]
        s.change(dlst={0: [-50.0, e] if x % 2 else [e, 50.0]})
        certain = base(spec['k']) in ('1vN', 'Redfield') and spec['itype'] == 0
        return (lambda: s.change(dlst={0: [-50.0, 50.0]})), ('fail' if certain else None)
    if cause == 'norm_row':
        if not spec['symq']:
            return None
        s.norm_row = [-1, 10**6, 1 << n, -(1 << n)][x % 4] if x % 4 != 2 else s.si.npauli
        return (lambda: setattr(s, 'norm_row', 0)), 'raise'
    if cause == 'solmethod':
        if not spec['mfree']:
            return None
        s.solmethod = ['newton', 'solver', ''][x % 3]
        return (lambda: setattr(s, 'solmethod', 'krylov')), 'fail'
    if cause == 'phi0_init':
        if not spec['mfree']:
            return None
        s.phi0_init = np.full(s.appr.get_kern_size() if s.phi0 is None else len(s.phi0), np.nan)
        return (lambda: setattr(s, 'phi0_init', None)), 'fail'
    if cause == 'phonon':
        if not spec['ph'] or v != 'nan':
            return None
        if x % 2 and spec['ph']['v']:
            _, i, j, a, b = spec['ph']['v'][0]
            s.change(velph={(0, i, j): val})
            return (lambda: s.change(velph={(0, i, j): gen.cx(a, b)})), None
        s.change(tlst_ph={0: val})
        return (lambda: s.change(tlst_ph={0: spec['ph']['T'][0]})), None
    return None


def run(s):
    """Solves; returns the exception."""
    try:
        solve(s)
    except (ValueError, TypeError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError, OverflowError) as e:
        return e
    return None


def told(lines):
    return any('Could not solve' in x for x in lines)


def loudly(s):
    """Solves; returns the exception and whether the user was told of a failure."""
    try:
        return None, told(solve(s, False))
    except (ValueError, TypeError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError, OverflowError) as e:
        return e, None


def trace(s):
    return sum(s.get_phi0(b, b).real for b in range(len(s.Ea)))


def healthy(ctx, spec, s, what):
    e = run(s)
    u = make(spec)
    if not spec['mfree']:
        u.make_kern_copy = True
    eu = run(u)
    if eu is not None:
        # 2vN: an uncoupled level on a grid point
        ctx.skip('no solution: %s' % type(eu).__name__)
    ctx.require(e is None, '%s: raised %r' % (what, e))
    if not u.success:
        ctx.require(not s.success or spec['mfree'], '%s: success only after the history' % what)
        ctx.skip('no solution')
    ctx.require(bool(s.success), '%s: not solved' % what)
    if spec['mfree']:
        ctx.require(abs(trace(s)-1) < 1e-3, '%s: trace' % what)
        return
    lo, hi = common.conditioning(u)
    tol = 1e-12*max(hi, 1)/lo if lo > 0 else 1
    if base(spec['k']) == '2vN' and np.isfinite(u.appr.kern1k_inv).all():
        tol += 1e-12*np.linalg.cond(u.appr.kern1k_inv).max()
    if spec['ph'] or base(spec['k']) in ('Pauli', 'RTD'):
        E, N = np.array(u.Ea), common.charges_of(u)
        gap = np.abs(E[:, None]-E[None, :])[(N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)].min(initial=1)
        tol = 1 if gap < 1e-4 else tol*(1+.1/gap)
    if tol > 1e-6:
        ctx.label('nearly singular')
        return
    for a in ('phi0', 'current', 'energy_current', 'heat_current'):
        p, q = np.array(getattr(s, a)), np.array(getattr(u, a))
        m = np.isfinite(q)
        ctx.require(p.shape == q.shape and (np.isfinite(p) == m).all(), '%s: %s' % (what, a))
        ctx.close(p[m], q[m], tol*100*(1+np.abs(q[m]).max(initial=0)), '%s: %s' % (what, a))


def check_failures(ctx, spec):
    s = make(spec)
    failed = 0
    for i, op in enumerate(spec['ops']):
        if op[3] or i:
            healthy(ctx, spec, s, 'before %s' % op if not i else 'after the cause of failure %s was removed' % spec['ops'][:i])
        r = mends(spec, s, op)
        if r is None:
            continue
        undo, certain = r
        what = '%s (%s), cause %s' % (spec['k'], 'matrix-free' if spec['mfree'] else 'symq=%s' % spec['symq'], op[:3])
        e, printed = loudly(s)
        if e is not None:
            ctx.label('raised')
            failed += 1
        else:
            good = bool(s.success)
            if not spec['mfree']:
                ctx.require(printed == (not good), '%s: success %s, %s warning of a failure' % (what, good, 'a' if printed else 'no'))
                if printed and base(spec['k']) != '2vN':
                    again = quietly(s.solve)[1]
                    ctx.require(not told(again), '%s: the warning is shown again' % what)
                    ctx.require(not s.success, '%s: solved when tried again' % what)
            ctx.label('reported success' if good else 'reported failure')
            ctx.require(certain != 'raise', '%s: accepted' % what)
            ctx.require(not (good and certain == 'fail'), '%s: reported as solved, phi0 %s' % (what, np.array(s.phi0)))
            phi0 = np.array(s.phi0)
            if good:
                ctx.require(np.isfinite(phi0).all(), '%s: solved, but phi0 is %s' % (what, phi0))
                ctx.require(abs(trace(s)-1) < 1e-3, '%s: solved, but the trace is %g' % (what, trace(s)))
            elif not spec['mfree']:
                failed += 1
                ctx.require((phi0 == 0).all(), '%s: failed, but phi0 is %s' % (what, phi0))
                for a in ('current', 'energy_current', 'heat_current'):
                    v = np.array(getattr(s, a))
                    ctx.require(((v == 0) | ~np.isfinite(v)).all(), '%s: failed, but %s is %s' % (what, a, v))
            else:
                failed += 1
        undo()
        ctx.label(op[0])
    healthy(ctx, spec, s, 'after the causes of failure %s were removed' % (spec['ops'],))
    ctx.nontrivial(failed)


# ---- spectral densities given by the user

class Trouble(Exception):
    pass


@st.composite
def callbacks(draw):
    spec = draw(gen.system(nmax=2, lmax=2, itypes=(1, 2, 3), D=50.0))
    spec['k'] = ('py' if draw(st.booleans()) else '')+draw(st.sampled_from(FIRST))
    spec['ph'] = draw(gen.phonons(spec['n'], nbmax=2))
    if not spec['ph']['v']:
        spec['ph']['v'] = [[0, i, j, .25, 0.0] for i in range(spec['n']) for j in range(spec['n'])]
    spec['ph']['dos'] = draw(st.sampled_from(['lin', 'const', 'gauss']))
    spec['what'] = draw(st.sampled_from(['raises', 'other class', 'no function', 'too few', 'nan', 'later']))
    spec['at'] = draw(st.integers(0, 6))
    return spec


def check_callbacks(ctx, spec):
    from qmeq.specfunc import c_specfunc_elph, specfunc_elph
    ph, w, k = spec['ph'], spec['what'], spec['k']
    comp = not k.startswith('py')
    Func = (c_specfunc_elph if comp != (w == 'other class') else specfunc_elph).Func
    calls = []

    class F(Func):
        bath = 0

        def eval(self, x):
            calls.append(x)
            if w == 'raises' or w == 'later' and len(calls) > spec['at']:
                raise Trouble()
            if w == 'nan':
                return float('nan')
            return gen.dos_value(ph['dos'], self.bath, x)

        def __deepcopy__(self, memo):
            f = type(self)()
            f.bath = self.bath
            return f
    fs = []
    for b in range(ph['nb']):
        fs.append(F())
        fs[-1].bath = b
    if w == 'no function':
        fs = [object()]*ph['nb']
    if w == 'too few':
        fs = fs[:-1]
    s = gen.build_elph(spec, ph, k, bath_func=fs)
    r = gen.build_elph(spec, ph, k)
    s.make_kern_copy = r.make_kern_copy = True
    solve(r)
    what = '%s, spectral density: %s' % (k, w)
    ctx.label(w)
    try:
        solve(s)
    except (Trouble, TypeError, AttributeError, IndexError) as e:
        ctx.label('raised')
        ctx.nontrivial()
        ctx.require(not isinstance(e, Trouble) or w in ('raises', 'later'), '%s: raised %r' % (what, e))
        # and works with the right functions
        s.bath_func = gen.bath_func(ph['dos'], ph['nb'], comp)
        solve(s)
    else:
        trouble = w == 'raises' and calls or w == 'later' and len(calls) > spec['at']
        ctx.require(not trouble, '%s: the exception was ignored' % what)
        if w == 'nan' and calls:
            ctx.nontrivial()
            ctx.require(not s.success, '%s: reported as solved' % what)
            s.bath_func = gen.bath_func(ph['dos'], ph['nb'], comp)
            solve(s)
    # whatever was accepted gives the same as the right functions
    ctx.require(bool(s.success) == bool(r.success), '%s: success %s' % (what, s.success))
    if not r.success:
        ctx.skip('no solution')
    tol = common.rel_error(r, spec['itype'], quad=0.0)
    if not tol < 1e-6:
        ctx.skip('nearly singular')
    ctx.close(s.phi0, r.phi0, tol*100, what+': density matrix')
    ctx.close(s.current, r.current, tol*1000, what+': current')


# ---- iterations which do not converge

METHODS = ['linearmixing', 'diagbroyden', 'excitingmixing', 'anderson', 'broyden2', 'broyden1', 'hybr', 'lm', 'df-sane', 'krylov']


@st.composite
def divergence(draw):
    spec = draw(c06.mfree())
    spec['method'] = draw(st.sampled_from(METHODS))
    spec['start'] = draw(st.lists(st.integers(-40, 40), min_size=1, max_size=6)) if draw(st.booleans()) else None
    spec['then'] = draw(st.sampled_from([None, 'krylov', 'lm', 'direct']))
    return spec


def check_divergence(ctx, spec):
    s = c06.spec_build(spec)
    s.make_kern_copy = True
    s.funcp.suppress_err = True
    s.solve()
    if not (s.success and common.rel_error(s, spec['itype'], quad=0.0) < 1e-8):
        ctx.skip('ill-conditioned')
    ref = np.array(s.phi0)
    K, _, _ = c06.equations(s)
    lo, hi = common.conditioning(s)
    n = len(ref)
    init = None if spec['start'] is None else np.resize(np.array(spec['start'])/4.0, n)
    t = c06.spec_build(spec, mfreeq=True, solmethod=spec['method'], norm_row=spec['nrow'] % s.si.npauli, phi0_init=init)
    t.funcp.suppress_wrn[0] = t.funcp.suppress_err = True
    what = '%s with %s' % (spec['k'], spec['method'])

    def holds(what):
        phi0 = np.array(t.phi0)
        ctx.require(np.isfinite(phi0).all(), '%s: solved, but phi0 is %s' % (what, phi0))
        scale = 1+(0 if init is None else np.abs(init).max())*max(hi, 1)
        res = max(np.abs(K @ phi0).max(), abs(trace(t)-1))
        # (df-sane and the tolerances of the others are relative to the start)
        ctx.require(res <= 1e-4*n*scale, '%s: reported as solved with residual %g' % (what, res))
        if lo > 1e-3:
            ctx.close(phi0, ref, 1e-4*n*scale/lo, '%s: reported as solved' % what)
    with np.errstate(all='ignore'):
        e = run(t)
    ok = e is None and bool(t.success)
    ctx.label(spec['method'], 'raised' if e is not None else 'success' if ok else 'no convergence')
    if ok:
        holds(what)
    ctx.nontrivial(not ok)
    if spec['then'] is None:
        return
    if spec['then'] == 'direct':
        t.mfreeq, t.solmethod = False, 'solve'
    else:
        t.solmethod = spec['then']
    t.phi0_init = init = None
    e = run(t)
    ctx.require(e is None, '%s: then %s raised %r' % (what, spec['then'], e))
    if spec['then'] == 'direct':
        ctx.require(bool(t.success), '%s: not solved afterwards' % what)
        ctx.close(t.phi0, ref, 1e-10+1e-12*max(1, hi)/lo, '%s: solved afterwards' % what)
    elif t.success:
        holds('%s: then %s' % (what, spec['then']))


SUBCHECKS = [
    Sub('divergence', divergence, check_divergence, 400, 6000, 'an iteration did not converge', shards=3, tshards=8),
    Sub('callbacks', callbacks, check_callbacks, 400, 6000, 'the spectral density could not be used', shards=2, tshards=6),
    Sub('settings', settings, check_settings, 700, 12000, 'a setting had to be replaced', shards=5, tshards=12),
    Sub('failures', failures, check_failures, 900, 16000, 'a solve failed, a later one succeeded', shards=5, tshards=12),
]
