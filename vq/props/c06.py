"""The stationary solution is normalised and independent of how it is solved for."""

import numpy as np
from hypothesis import strategies as st

from .. import common, gen
from ..core import Sub
from . import c04

RULE = ('non-trivial: at least two density-matrix elements, a unique stationary state (error bound of the linear solve '
        'below 1e-5) and at least one differing solver setting')
ASSUMPTIONS = ['differences allowed: rounding and matrix-free residual tolerance over the smallest singular value of '
               'the solved matrix, measured per case']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']


@st.composite
def settings(draw, elph=False):
    spec = draw(gen.system(nmax=3, itypes=(0, 1, 2, 3) if not elph else (1, 2, 3)))
    spec['k'] = draw(st.sampled_from(BASE))
    spec['py'] = draw(st.integers(0, 3)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    if elph:
        spec['ph'] = draw(gen.phonons(spec['n']))
    # the way from the reference solve to the second one
    spec['alt'] = draw(st.lists(st.tuples(st.sampled_from(['norm', 'symq', 'lsqr', 'again', 'fresh']),
                                          st.integers(0, 7)), min_size=1, max_size=4))
    spec['rm'] = draw(st.sampled_from([None, None, None, 'rmstates', 'rmcoh']))
    return spec


@st.composite
def spin_spec(draw, mfree=False):
    """Spin multiplets: the elements of a multiplet share one unknown in ssq indexing."""
    sp = draw(c04.spinful(big=not mfree))
    itype = sp['itype'] or 2
    sp['itype'] = itype
    sp['indexing'] = draw(st.sampled_from(['ssq', 'ssq', 'sz', 'charge'])) if sp['sym'] else sp['indexing']
    spec = dict(spin=sp, k=sp['k'], py=sp['py'], indexing=sp['indexing'], itype=itype)
    if mfree:
        spec.update(method=draw(st.sampled_from([None, 'krylov', 'krylov', 'broyden1', 'lm', 'hybr'])),
                    init=draw(st.sampled_from([None, 'good', 'uniform'])), nrow=draw(st.integers(0, 15)),
                    before=draw(st.booleans()))
        if sp['h'] == 2 and (spec['py'] or sp['k'] != 'Pauli' and sp['indexing'] not in ('ssq', 'sz')):
            spec.update(py=False, k='Pauli')
    else:
        spec.update(alt=draw(st.lists(st.tuples(st.sampled_from(['norm', 'norm', 'symq', 'lsqr', 'again', 'fresh']),
                                                st.integers(0, 15)), min_size=1, max_size=3)),
                    rm=draw(st.sampled_from([None, None, None, 'rmstates', 'rmcoh'])))
    return spec


def spec_build(spec, **kw):
    k = ('py' if spec['py'] else '')+spec['k']
    if 'spin' in spec:
        return c04.spin_build(spec['spin'], kerntype=k, indexing=spec['indexing'], **kw)
    if 'ph' in spec:
        return gen.build_elph(spec, spec['ph'], kerntype=k, indexing=spec['indexing'], **kw)
    return gen.build(spec, kerntype=k, indexing=spec['indexing'], **kw)


def equations(s):
    """All equations of the kernel, from a solve that keeps every equation."""
    old = s.symq, s.solmethod
    s.make_kern_copy = True
    s.symq = False
    s.solmethod = 'lsqr'
    s.solve(qdq=False, currentq=False)
    k, phi, suc = np.array(s.kern)[:-1], np.array(s.phi0), bool(s.success)
    s.symq, s.solmethod = old
    return k, phi, suc


def check_result(ctx, s, K, what, tol):
    pops = np.array([s.get_phi0(b, b) for b in range(len(s.Ea))])
    size = max(1, np.abs(s.phi0).max())
    ctx.close(pops.sum(), 1, 1e-9*size, what+'sum of the populations')
    ctx.close(K @ np.array(s.phi0), np.zeros(K.shape[0]), tol*size, what+'kernel times reported density matrix')


def check_settings(ctx, spec):
    s = spec_build(spec)
    s.make_kern_copy = True
    s.solve(masterq=False)
    if spec['rm']:
        from .c05 import apply_step
        apply_step(s, [spec['rm'], 1], spec)
    s.solve(qdq=False)
    ref = np.array(s.phi0)
    refobs = common.observables(s)
    refsuc = bool(s.success)
    err = common.rel_error(s, spec['itype'], quad=0.0)
    lo, hi = common.conditioning(s)
    K, phi, suc = equations(s)
    ctx.require(np.isfinite(K).all(), 'kernel is not finite')
    npop = s.si.npauli
    # every equation except those of the populations is independent; dropping any population equation is allowed
    rtol = 1e-14*(len(ref)+2)*max(np.abs(K).max(), 1)
    # populations are conserved by the equations up to rounding of the (for phonons cancelling) elements
    defect = np.abs(np.array(s.appr.norm_vec) @ K).max()
    terms = np.abs(K).max() + (1e7*np.abs(s.Vbbp).max()**2 if 'ph' in spec else 0)
    ctx.require(defect <= 1e-13*len(ref)*max(terms, 1e-12), 'equations of the kernel do not conserve probability: %g' % defect)
    rtol += 2*defect
    if lo > 0:
        err += defect*len(ref)*max(1, np.abs(ref).max())/lo
    if refsuc and err < 1e-2:
        check_result(ctx, s, K, 'direct solution: ', rtol)
    G = 2*np.pi*(np.abs(s.Tba)**2).sum()
    emax = 1+np.abs(s.Ea).max()+np.abs(s.mulst).max()+np.abs(s.dlst).max()
    for kind, x in spec['alt']:
        t = s
        if kind == 'norm':
            t.symq, t.norm_row = True, x % npop
        elif kind == 'symq':
            t.symq = not t.symq
        elif kind == 'lsqr':
            t.solmethod = 'lsqr'
        elif kind == 'fresh':
            t = spec_build(spec, norm_row=x % npop, symq=bool(x & 1), solmethod='lsqr' if x & 2 else None)
            t.make_kern_copy = True
            if spec['rm']:
                t.solve(masterq=False)
                from .c05 import apply_step
                apply_step(t, [spec['rm'], 1], spec)
        t.make_kern_copy = True
        t.solve(qdq=t is not s)
        e2 = max(err, common.rel_error(t, spec['itype'], quad=0.0))
        if not (t.success and e2 < 1e-5):
            if e2 < 1e-5 and np.isfinite(common.solved_matrix(t)).all():
                ctx.fail('well-conditioned system is reported as a failure with %s' % kind)
            ctx.label('ill-conditioned')
            continue
        what = '%s %d: ' % (kind, x)
        check_result(ctx, t, K, what, rtol)
        if not refsuc:
            ctx.fail('well-conditioned system is reported as a failure')
        ctx.close(t.phi0, ref, 20*e2, what+'density matrix differs')
        for a, b, f in zip(common.observables(t), refobs, (1, emax, emax)):
            ctx.close(a, b, 20*e2*(4*G+1e-12)*f*10+1e-13*f, what+'currents differ')
        ctx.label(kind, 'symq' if t.symq else 'all equations', str(t.solmethod))
        ctx.nontrivial(len(ref) >= 2)
    ctx.label(spec['k'], 'py' if spec['py'] else 'compiled', 'removal %s' % spec['rm'])


# ---- matrix-free

@st.composite
def mfree(draw):
    spec = draw(gen.system(nmax=2, lmax=2, itypes=(1, 2, 3), t=0.5))
    spec['k'] = draw(st.sampled_from(BASE))
    spec['py'] = draw(st.integers(0, 2)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['method'] = draw(st.sampled_from([None, 'krylov', 'krylov', 'broyden1', 'df-sane', 'lm', 'hybr']))
    spec['init'] = draw(st.sampled_from([None, 'good', 'uniform']))
    spec['nrow'] = draw(st.integers(0, 3))
    if draw(st.integers(0, 3)) == 0:
        spec['ph'] = draw(gen.phonons(spec['n']))
    spec['before'] = draw(st.booleans())
    return spec


def check_mfree(ctx, spec):
    s = spec_build(spec)
    s.make_kern_copy = True
    s.solve()
    ref, refobs = np.array(s.phi0), common.observables(s)
    if not (s.success and common.rel_error(s, spec['itype'], quad=0.0) < 1e-8):
        ctx.skip('ill-conditioned')
    K, _, _ = equations(s)
    lo, hi = common.conditioning(s)
    if lo < 1e-3:
        ctx.skip('stationary state determined only weakly')
    init = None
    if spec['init'] == 'good':
        init = ref + 0.01
    elif spec['init'] == 'uniform':
        init = np.where(np.arange(len(ref)) < s.si.npauli, 1.0/s.si.npauli, 0.0)
    if spec['before']:
        s.funcp.suppress_wrn[0] = s.funcp.suppress_err = True
        s.mfreeq = True
        s.solmethod = spec['method']
        s.norm_row = spec['nrow'] % s.si.npauli
        s.phi0_init = init
        t = s
    else:
        t = spec_build(spec, mfreeq=True, solmethod=spec['method'], norm_row=spec['nrow'] % s.si.npauli,
                       phi0_init=None if init is None else init.copy())
        t.funcp.suppress_wrn[0] = t.funcp.suppress_err = True
    keep = None if init is None else init.copy()
    t.solve()
    if init is not None:
        ctx.require((init == keep).all(), 'the start vector was modified')
    if not t.success:
        ctx.skip('no convergence')
    # scipy stops at a residual of 6e-6 (or better)
    tol = 5e-5/lo
    ctx.close(K @ np.array(t.phi0), np.zeros(K.shape[0]), 1e-4*len(ref), 'kernel times matrix-free solution')
    pops = sum(t.get_phi0(b, b) for b in range(len(t.Ea)))
    ctx.close(pops, 1, max(tol, 1e-4), 'sum of the populations')
    ctx.close(t.phi0, ref, tol, 'matrix-free and direct solution')
    G = 2*np.pi*(np.abs(s.Tba)**2).sum()
    emax = 1+np.abs(s.Ea).max()+np.abs(s.mulst).max()+20
    for a, b, f in zip(common.observables(t), refobs, (1, emax, emax)):
        ctx.close(a, b, tol*(4*G+1e-12)*f*20+1e-12*f*np.abs(s.dlst).max(), 'matrix-free and direct currents')
    ctx.label(spec['k'], str(spec['method']), 'start %s' % spec['init'], 'switched' if spec['before'] else 'fresh')
    ctx.nontrivial(len(ref) >= 2)


# ---- second-order approaches

@st.composite
def second(draw):
    k = draw(st.sampled_from(['RTD', 'RTD', '2vN']))
    n = draw(st.integers(1, 2))
    spec = draw(gen.system(nmin=n, nmax=n, lmax=2, itypes=(1,), D=draw(gen.num(20, 40, 1)) if k == '2vN' else 100.0,
                           tmin=0.5, equal_T=k == 'RTD', real=True if k == 'RTD' else None, emax=2.0, umax=4, mu=2.0))
    spec['k'] = k
    spec['py'] = k == 'RTD' and draw(st.integers(0, 4)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'Lin'])) if k == '2vN' else 'charge'
    spec['nrow'] = draw(st.integers(0, 3))
    spec['symq'] = draw(st.booleans())
    spec['niter'] = draw(st.integers(1, 2))
    return spec


def check_second(ctx, spec):
    kw = dict(kpnt=48) if spec['k'] == '2vN' else {}
    skw = dict(niter=spec['niter']) if spec['k'] == '2vN' else {}
    s = spec_build(spec, **kw)
    s.make_kern_copy = True
    s.solve(**skw)
    lo, hi = common.conditioning(s)
    if not lo > 1e-9*hi:
        ctx.skip('ill-conditioned')
    t = spec_build(spec, norm_row=spec['nrow'] % 2**spec['n'], symq=spec['symq'],
                   solmethod=None if spec['symq'] else 'lsqr', **kw)
    t.make_kern_copy = True
    t.solve(**skw)
    lo2, hi2 = common.conditioning(t)
    if not lo2 > 1e-9*hi2:
        ctx.skip('ill-conditioned')
    ctx.require(bool(s.success) and bool(t.success), 'well-conditioned solve fails')
    err = 1e-12*(hi/lo + hi2/lo2)*max(1, np.abs(s.phi0).max())
    ctx.close(t.phi0, s.phi0, err, 'density matrix')
    scale = 10*(1+2*np.pi*(np.abs(s.Tba)**2).sum()+hi)
    for a, b, f in zip(common.observables(t), common.observables(s), (1, 100, 100)):
        ctx.close(a, b, err*scale*f, 'currents')
    pops = sum(t.get_phi0(b, b) for b in range(len(t.Ea)))
    ctx.close(pops, 1, 1e-9, 'sum of the populations')
    ctx.label(spec['k'], 'symq' if spec['symq'] else 'all equations')
    ctx.nontrivial(len(s.phi0) >= 2 and (spec['nrow'] or not spec['symq']))


SUBCHECKS = [
    Sub('settings', settings, check_settings, 1500, 30000,
        'normalisation row, all equations, least squares, repeated solves; first-order approaches', shards=5, tshards=16),
    Sub('phonon', lambda: settings(elph=True), check_settings, 500, 8000, 'the same with phonon baths', shards=4,
        tshards=16),
    Sub('mfree', mfree, check_mfree, 500, 8000, 'matrix-free methods and start vectors against the direct solution',
        shards=4, tshards=16),
    Sub('spin', spin_spec, check_settings, 500, 8000, 'sz and ssq indexing (spin multiplets), up to three orbitals', shards=4,
        tshards=16),
    Sub('spin_mfree', lambda: spin_spec(mfree=True), check_mfree, 250, 4000, 'the same with the matrix-free methods',
        shards=4, tshards=16),
    Sub('second', second, check_second, 300, 4000, 'RTD and 2vN with other normalisation rows and all equations',
        shards=4, tshards=16),
]
