"""Equilibrium carries no current; detailed balance, second law, reciprocity."""

import numpy as np
from hypothesis import strategies as st

from .. import common, gen
from ..core import Sub
from .c06 import spec_build
from .c08 import scales

RULE = ('non-trivial: at least two states with population above 1e-9 and error bound of the linear solve below 1e-5 '
        '(equilibrium), or additionally a current above 1e-9 (out of equilibrium)')
ASSUMPTIONS = ['coherent approaches are covered where no coherences exist or all have been removed',
               'phonon rates use an energy floor eps_elph, which breaks detailed balance of near-degenerate levels by 1e-6']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']


def grand(s, mu, T):
    N = common.charges_of(s)
    x = -(np.array(s.Ea)-mu*N)/T
    w = np.exp(x-x.max())
    return w/w.sum()


@st.composite
def system(draw, elph=False):
    spec = draw(gen.system(nmax=3, lmax=3, itypes=(0, 1, 2, 3), equal_T=True))
    spec['k'] = draw(st.sampled_from(['Pauli', 'Pauli', 'Pauli']+BASE))
    spec['py'] = draw(st.integers(0, 3)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    if draw(st.integers(0, 4)) == 0:
        # levels outside the band of some lead
        spec['D'] = [[-draw(gen.num(1, 6, 16)), draw(gen.num(1, 6, 16))] for _ in range(spec['nl'])]
    if elph:
        spec['ph'] = draw(gen.phonons(spec['n']))
        spec['ph']['T'] = [spec['T'][0]]*spec['ph']['nb']
        spec['itype'] = max(spec['itype'], 1)
    return spec


def solve(ctx, s, spec, single=False):
    """Solve; the coherent approaches with all coherences removed.  Returns the error bound."""
    s.make_kern_copy = True
    s.solve(masterq=False)
    E, N = np.array(s.Ea), common.charges_of(s)
    if spec['k'] != 'Pauli':
        d = np.abs(E[:, None]-E[None, :])[(N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)]
        if d.size and d.min() < 1e-9:
            ctx.skip('degenerate levels have coherences')
        if d.size:
            s.remove_coherences(0.5*d.min())
            ctx.label('coherences removed')
    # at a band edge the two implementations may (and do) round differently
    up = N[:, None] == N[None, :]+1
    diff = (E[:, None]-E[None, :])[up]
    for lo, hi in s.dlst:
        if diff.size and min(np.abs(diff-lo).min(), np.abs(diff-hi).min()) < 1e-3:
            ctx.skip('level at a band edge')
    s.solve(qdq=False)
    err = common.rel_error(s, quad=0.0)
    if not (s.success and err < 1e-5):
        ctx.skip('ill-conditioned')
    if hasattr(s, 'Vbbp'):
        gaps = np.abs(E[:, None]-E[None, :])[~np.eye(len(E), dtype=bool)]
        if gaps.size and gaps.min() < 1e-4:
            err += 1e-5
    return err


def check_equilibrium(ctx, spec):
    spec['mu'] = [spec['mu'][0]]*spec['nl']
    s = spec_build(spec)
    err = solve(ctx, s, spec)
    G, E = scales(s)
    p = np.array([s.get_phi0(b, b) for b in range(len(s.Ea))]).real
    ctx.close(p, grand(s, spec['mu'][0], spec['T'][0]), 1e-10+20*err, 'populations against exp(-(E-mu N)/T)/Z')
    band = np.abs(s.dlst).max() if spec['itype'] in (0, 1) else 0.0
    tol = (1e-12+20*err)*G+1e-16
    ctx.require(np.abs(s.current).max() <= tol, lambda: 'particle currents %s in equilibrium' % s.current)
    ctx.require(np.abs(s.energy_current).max() <= tol*E*4+1e-13*G*band, lambda: 'energy currents %s in equilibrium' % s.energy_current)
    ctx.require(np.abs(s.heat_current).max() <= tol*E*8+1e-13*G*band, lambda: 'heat currents %s in equilibrium' % s.heat_current)
    ctx.label(spec['k'], 'itype%d' % spec['itype'], 'phonons' if 'ph' in spec else 'no phonons')
    ctx.nontrivial((p > 1e-9).sum() >= 2)


def draw_temps(draw, spec):
    T0 = spec['T'][0]
    spec['T'] = [T0 if draw(st.booleans()) else draw(gen.num(0.25, 2)) for _ in spec['T']]


@st.composite
def second_law(draw, elph=False):
    spec = draw(system(elph=elph))
    if not elph:
        draw_temps(draw, spec)
    return spec


def check_second_law(ctx, spec):
    s = spec_build(spec)
    err = solve(ctx, s, spec)
    G, E = scales(s)
    tol = (1e-12+20*err)*G*E*8+1e-16
    if spec['itype'] in (0, 1):
        tol += 1e-13*G*np.abs(s.dlst).max()
    T = np.array(spec['T'])
    mu = np.array(spec['mu'])
    cur, ecur, heat = common.observables(s)
    if 'ph' in spec:
        # everything at one temperature: the power mu I the leads deliver is dissipated
        ctx.require((mu*cur).sum() >= -tol*(1+np.abs(mu).max()), lambda: 'leads gain the power %g at one temperature' % -(mu*cur).sum())
        ctx.label('phonons')
    else:
        prod = -(heat/T).sum()
        ctx.require(prod >= -tol*4/T.min(), lambda: 'entropy production %g (heat currents into the dot %s, temperatures %s)'
                    % (prod, heat, T))
        if prod > 1e-6:
            ctx.label('entropy produced')
    active = [l for l in range(s.nleads) if np.abs(s.Tba[l]).max() > 0]
    if len(active) == 2:
        a, b = active
        if spec['T'][a] == spec['T'][b]:
            ctx.require((mu[a]-mu[b])*cur[a] >= -tol*(1+abs(mu[a]-mu[b])), lambda: 'current %g flows from low to high chemical potential' % cur[a])
            ctx.label('two leads, bias')
        elif mu[a] == mu[b] and 'ph' not in spec:
            ctx.require((T[a]-T[b])*heat[a] >= -tol*4, lambda: 'heat %g flows from cold to hot' % heat[a])
            ctx.label('two leads, temperature difference')
    ctx.label(spec['k'], '%d active leads' % len(active))
    ctx.nontrivial(np.abs(cur).max() > 1e-9)


@st.composite
def onsager(draw):
    spec = draw(gen.system(nmax=3, lmin=2, lmax=3, itypes=(1, 2, 3), equal_T=True, D=60.0, tmin=0.5))
    spec['k'] = draw(st.sampled_from(['Pauli', 'Pauli', 'Pauli']+BASE))
    spec['py'] = draw(st.integers(0, 3)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'Lin']))
    return spec


def check_onsager(ctx, spec):
    """Linear response around equilibrium is symmetric: dI_l/dmu_k = dI_k/dmu_l and dQ_l/dmu_k = T dI_k/dT_l."""
    spec['mu'] = [spec['mu'][0]]*spec['nl']
    s = spec_build(spec)
    err = solve(ctx, s, spec)
    if err > 1e-9:
        ctx.skip('error bound too large for derivatives')
    T, nl = spec['T'][0], spec['nl']
    G, E = scales(s)
    h = 1e-3*T

    def derivative(kind, k):
        out = 0
        for x, w in ((h, 8.0), (-h, -8.0), (2*h, -1.0), (-2*h, 1.0)):
            s.change(**{kind: {k: (spec['mu'][0] if kind == 'mulst' else T)+x}})
            s.solve(qdq=False)
            out = out+w*np.array([s.current, s.heat_current])/(12*h)
        s.change(**{kind: {k: spec['mu'][0] if kind == 'mulst' else T}})
        return out
    dmu = np.array([derivative('mulst', k) for k in range(nl)])     # [k, I/Q, l]
    dT = np.array([derivative('tlst', k) for k in range(nl)])
    scale = np.abs(dmu[:, 0]).max()
    noise = (30*err+1e-13)*G/h
    # fourth-order differences with steps of 1e-3 T
    ctx.close(dmu[:, 0], dmu[:, 0].T, 1e-5*scale+noise, 'dI_l/dmu_k is not symmetric')
    ctx.close(dmu[:, 1], T*dT[:, 0].T, 1e-4*np.abs(dmu[:, 1]).max()+noise*E*10, 'dQ_l/dmu_k differs from T dI_k/dT_l')
    ctx.close(dT[:, 1], dT[:, 1].T, 1e-4*np.abs(dT[:, 1]).max()+noise*E**2*20/T, 'dQ_l/dT_k is not symmetric')
    ctx.label(spec['k'], '%d leads' % nl)
    ctx.nontrivial(scale > 30*noise and scale > 1e-9)


@st.composite
def spin(draw):
    from . import c04
    sp = draw(c04.spinful())
    sp['k'] = draw(st.sampled_from(['Pauli']*3+BASE))
    return sp


def check_spin(ctx, sp):
    """Spin indexings: equilibrium of the Pauli approach, and of the coherent ones where no coherences exist."""
    from . import c04
    sp = dict(sp)
    sp['mu'] = [sp['mu'][0]]*len(sp['mu'])
    sp['T'] = [sp['T'][0]]*len(sp['T'])
    s = c04.spin_build(sp, kerntype=('py' if sp['py'] else '')+sp['k'], indexing=sp['indexing'])
    s.make_kern_copy = True
    s.solve()
    if sp['k'] != 'Pauli' and len(s.phi0) > s.si.npauli:
        ctx.skip('coherences')
    err = common.rel_error(s, quad=0.0)
    if not (s.success and err < 1e-5):
        ctx.skip('ill-conditioned')
    G, E = scales(s)
    p = np.array([s.get_phi0(b, b) for b in range(len(s.Ea))]).real
    ctx.close(p, grand(s, sp['mu'][0], sp['T'][0]), 1e-10+20*err, 'populations against exp(-(E-mu N)/T)/Z')
    tol = (1e-12+20*err)*G+1e-16
    ctx.require(np.abs(s.current).max() <= tol, lambda: 'particle currents %s in equilibrium' % s.current)
    ctx.require(np.abs(s.energy_current).max() <= tol*E*4+1e-11*G, lambda: 'energy currents %s in equilibrium' % s.energy_current)
    ctx.label(sp['k'], sp['indexing'], 'spin symmetry' if sp['sym'] else 'two spin species')
    ctx.nontrivial((p > 1e-9).sum() >= 2)


SUBCHECKS = [
    Sub('equilibrium', system, check_equilibrium, 2500, 50000, 'grand-canonical populations, no currents', shards=5,
        tshards=16),
    Sub('phonon', lambda: system(elph=True), check_equilibrium, 900, 16000, 'the same with phonon baths at the same temperature',
        shards=4, tshards=16),
    Sub('spin', spin, check_spin, 900, 16000, 'the same in spin-resolving indexings', shards=3, tshards=16),
    Sub('second_law', second_law, check_second_law, 2500, 50000, 'entropy production, direction of currents', shards=5,
        tshards=16),
    Sub('second_law_phonon', lambda: second_law(elph=True), check_second_law, 700, 16000, 'dissipated power with phonons',
        shards=3, tshards=16),
    Sub('onsager', onsager, check_onsager, 600, 10000, 'reciprocity of linear response', shards=4, tshards=16),
]
