"""Charge and energy are conserved in the stationary state."""

import numpy as np
from hypothesis import strategies as st

from .. import common, gen
from ..core import Sub
from .c06 import spec_build
from .c05 import apply_step

RULE = ('non-trivial: at least two leads, two states with population above 1e-9, a current above 1e-9, and an error '
        'bound of the linear solve below 1e-4')
ASSUMPTIONS = ['sums may differ from zero by rounding and by the error of the linear solve, measured per case',
               'itype 0/1 energy integrals contain band-edge terms whose cancellation costs digits']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']


def scales(s):
    """(rate scale, energy scale)"""
    G = 2*np.pi*(np.abs(s.Tba)**2).sum()
    E = 1+np.abs(s.Ea).max()-np.min(s.Ea)+np.abs(s.mulst).max()
    return G, E


def check_sums(ctx, s, k, err, what='', energy=True, band=0.0):
    """Currents of a solved system; err bounds the error of the density matrix."""
    G, E = scales(s)
    cur, ecur, heat = common.observables(s)
    size = max(1, np.abs(s.phi0).max())
    ctx.require(np.isfinite(cur).all(), what+'particle currents are not finite')
    ctol = (1e-12*size+20*err)*G+1e-16
    ctx.require(abs(cur.sum()) <= ctol, lambda: what+'particle currents %s add up to %g (allowed %g)' % (cur, cur.sum(), ctol))
    nan = np.isnan(ecur)
    ctx.require((nan == np.isnan(heat)).all(), what+'energy and heat currents are not defined together')
    mag = np.abs(ecur).max(initial=0)+np.abs(s.mulst*cur).max(initial=0)
    ctx.close(heat, ecur-np.array(s.mulst)*cur, 1e-13*(mag+1e-3), what+'heat currents')
    if energy and not nan.any():
        etol = ctol*E*4+1e-13*size*G*band
        ctx.require(abs(ecur.sum()) <= etol,
                    lambda: what+'energy currents %s add up to %g (allowed %g)' % (ecur, ecur.sum(), etol))
    # a lead without tunnelling carries nothing
    for l in range(s.nleads):
        if np.abs(s.Tba[l]).max(initial=0) == 0:
            ctx.require(cur[l] == 0 and (nan[l] or (ecur[l] == 0 and heat[l] == 0)), what+'lead %d is not coupled but carries %s'
                        % (l, (cur[l], ecur[l], heat[l])))
            ctx.label('uncoupled lead')


@st.composite
def first(draw, elph=False):
    spec = draw(gen.system(nmax=3, lmax=4, itypes=(1, 2, 3) if elph else (0, 1, 2, 2, 3)))
    spec['k'] = draw(st.sampled_from(BASE))
    spec['py'] = draw(st.integers(0, 3)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    if draw(st.integers(0, 4)) == 0 and spec['nl'] > 1:
        dead = draw(st.integers(0, spec['nl']-1))
        spec['tl'] = [x for x in spec['tl'] if x[0] != dead] or [[(dead+1) % spec['nl'], 0, 0.25, 0.0]]
    if elph:
        spec['ph'] = draw(gen.phonons(spec['n']))
    spec['steps'] = draw(st.lists(st.tuples(st.sampled_from(['rmstates', 'rmcoh', 'all', 'mu', 'tl', 'hs']),
                                            st.integers(0, 63)), max_size=2))
    spec['nrow'] = draw(st.integers(0, 7))
    spec['symq'] = draw(st.sampled_from([True, True, False]))
    return spec


def check_first(ctx, spec):
    s = spec_build(spec, symq=spec['symq'], norm_row=spec['nrow'] % 2**spec['n'])
    s.make_kern_copy = True
    k = spec['k']
    for step in [['none', 0]]+spec['steps']:
        if step[0] != 'none':
            if not apply_step(s, step, spec):
                continue
            if s.norm_row >= s.si.npauli:
                s.norm_row = 0
        s.solve()
        err = common.rel_error(s, quad=0.0)
        if not (s.success and err < 1e-4):
            ctx.label('ill-conditioned')
            continue
        what = 'after %s: ' % step[0]
        # coherences which are left out break energy conservation of no approach but Redfield (which never has it)
        energy = k in ('Pauli', 'Lindblad', '1vN') and 'ph' not in spec
        band = np.abs(s.dlst).max() if s.itype in (0, 1) else 0.0
        check_sums(ctx, s, k, err, what, energy, band)
        p = np.array([s.get_phi0(b, b) for b in range(len(s.Ea))]).real
        ctx.label(k, 'itype%d' % spec['itype'], 'py' if spec['py'] else 'compiled', 'step '+step[0])
        ctx.nontrivial(spec['nl'] > 1 and (p > 1e-9).sum() >= 2 and np.abs(s.current).max() > 1e-9)


@st.composite
def spin(draw):
    from . import c04
    return draw(c04.spinful(big=True))


def check_spin(ctx, sp):
    from . import c04
    s = c04.spin_build(sp, kerntype=('py' if sp['py'] else '')+sp['k'], indexing=sp['indexing'])
    s.make_kern_copy = True
    s.solve()
    err = common.rel_error(s, quad=0.0)
    if not (s.success and err < 1e-4):
        ctx.skip('ill-conditioned')
    k = sp['k']
    check_sums(ctx, s, k, err, '', k != 'Redfield', np.abs(s.dlst).max() if s.itype in (0, 1) else 0.0)
    if sp['sym']:
        # spin-up and spin-down leads carry the same
        h = s.nleads//2
        G, E = scales(s)
        tol = (1e-12+20*err)*G*max(1, np.abs(s.phi0).max())+1e-16
        ctx.close(s.current[:h], s.current[h:], tol, 'currents of the two spins')
        ctx.close(s.energy_current[:h], s.energy_current[h:], tol*E*4+1e-13*G*100, 'energy currents of the two spins')
    ctx.label(k, sp['indexing'], 'spin symmetry' if sp['sym'] else 'two spin species')
    ctx.nontrivial(np.abs(s.current).max() > 1e-9)


@st.composite
def second(draw):
    k = draw(st.sampled_from(['2vN', '2vN', 'RTD', 'RTD', 'RTD']))
    spec = draw(gen.system(nmax=2, lmax=3, itypes=(1,), D=30.0 if k == '2vN' else 200.0, tmin=0.5,
                           equal_T=draw(st.booleans()), emax=2.0, umax=4.0, mu=2.0))
    spec['k'] = k
    spec['py'] = draw(st.integers(0, 5)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'Lin'])) if k == '2vN' else 'charge'
    spec['niter'] = draw(st.integers(1, 3))
    spec['off'] = draw(st.booleans())
    if draw(st.integers(0, 4)) == 0 and spec['nl'] > 1:
        dead = draw(st.integers(0, spec['nl']-1))
        spec['tl'] = [x for x in spec['tl'] if x[0] != dead] or [[(dead+1) % spec['nl'], 0, 0.25, 0.0]]
    return spec


def check_second(ctx, spec):
    k = spec['k']
    s = spec_build(spec, **(dict(kpnt=40) if k == '2vN' else {}))
    s.make_kern_copy = True
    if k == '2vN':
        try:
            s.solve(niter=spec['niter'])
        except np.linalg.LinAlgError:
            ctx.skip('an uncoupled state in resonance with a grid point (singular)')
    else:
        s.off_diag_corrections = spec['off']
        s.appr.printed_warning_ImGamma = True
        s.solve()
    lo, hi = common.conditioning(s)
    if not (s.success and lo > 1e-8*hi):
        ctx.skip('ill-conditioned')
    err = 1e-13*hi/lo*max(1, np.abs(s.phi0).max())
    check_sums(ctx, s, k, err*(1+hi), '', k == 'RTD', 0.0)
    if k == '2vN':
        G, E = scales(s)
        for i, it in enumerate(s.iters):
            size = max(1, np.abs(it.phi0).max())
            ctx.require(abs(it.current.sum()) <= (1e-11*size+20*err*(1+hi))*G, lambda: 'iteration %d: particle currents %s add up to %g'
                        % (i, it.current, it.current.sum()))
            ctx.close(it.heat_current, it.energy_current-np.array(s.mulst)*it.current,
                      1e-12*(1e-3+np.abs(it.energy_current).max()+np.abs(s.mulst*it.current).max()),
                      'iteration %d: heat currents' % i)
    else:
        if np.isnan(s.energy_current).any():
            ctx.label('energy currents not defined')
        else:
            ctx.label('energy currents')
    ctx.label(k, '%d levels' % spec['n'], '%d leads' % spec['nl'])
    ctx.nontrivial(spec['nl'] > 1 and np.abs(s.current).max() > 1e-9)


SUBCHECKS = [
    Sub('first', first, check_first, 3000, 60000, 'first-order approaches with histories of removals and changes',
        shards=6, tshards=16),
    Sub('phonon', lambda: first(elph=True), check_first, 1000, 16000, 'particle currents with phonon baths', shards=4,
        tshards=16),
    Sub('spin', spin, check_spin, 1000, 16000, 'spin-conserving dots; equal currents of both spins', shards=3,
        tshards=16),
    Sub('second', second, check_second, 1200, 16000, '2vN (every iteration) and RTD', shards=6, tshards=16),
]
