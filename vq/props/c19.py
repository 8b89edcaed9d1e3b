"""Phonon baths act with golden-rule rates and detailed balance."""

import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub
from . import c04, c14
from .c09 import grand
from .c16 import pv_phonon

RULE = ('non-trivial: the phonon part of the equations is not zero for the solution (its terms exceed 1e-6 before '
        'they balance), at least two states are populated and there is a current or a coherence')
ASSUMPTIONS = ['excitation energies below eps_elph T are treated as eps_elph T (documented floor) with one half of the '
               'absorption and of the emission; gaps between eps T/2 and 2 eps T are not generated',
               'levels closer than 1e-3 to a band edge are not generated']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']
EPS = 1e-6


def phonon_part(s, dos, pv=None, eps=EPS):
    """Makes the reference phonon part from the couplings the system reports."""
    V = np.array(s.Vbbp)

    def make(fo, keep=None):
        v = V if keep is None else V[:, keep][:, :, keep]
        return ref.Phonons(fo, v, s.tlst_ph, s.dlst_ph, lambda l, w: gen.dos_value(dos, l, w), eps, pv)
    return make


def phonon_edges(s, eps=EPS):
    """Is an excitation energy at the edge of a phonon band or of the floor eps T, below which levels are degenerate?"""
    N, E = common.charges_of(s), np.array(s.Ea)
    i = np.arange(len(E))
    pair = (N[:, None] == N[None, :]) & (i[:, None] != i[None, :])
    d = np.abs(E[:, None]-E[None, :])[pair]
    for lo, hi in s.dlst_ph:
        if d.size and min(np.abs(d-lo).min() if lo else 1, np.abs(d-hi).min()) < 1e-3:
            return 'an excitation at the edge of a phonon band'
    for t in s.tlst_ph:
        if d.size and ((d > 0.5*eps*t) & (d < 2*eps*t)).any():
            return 'levels at the distance eps T'
    return None


def check_solution(ctx, s, spec, mask=None, keep=None, pv=None, where=''):
    ph = phonon_part(s, spec['ph']['dos'], pv, spec.get('eps', EPS))
    c = c14.copy_ctx(ctx)
    fo, rho = c04.check_first_order(c, s, spec['itype'], mask, where, keep, ph)
    P = ph(fo, keep)
    W = P.rates().sum(0)
    active = (W @ np.abs(np.diag(rho))).sum() > 1e-6
    ctx.label(s.kerntype, 'dos %s' % spec['ph']['dos'])
    if active:
        ctx.label('phonon transitions')
    ctx.nontrivial(c.nontriv and active)
    # phonons carry no charge
    G = 2*np.pi*(np.abs(fo.dot.up)**2).sum()
    size = max(1, np.abs(rho).max())
    if mask is None and keep is None:
        res = 1e-12*size*(G+P.size())*len(rho)
        ctx.close(sum(s.current), 0, (1e-9 if spec['itype'] else 5e-5)*G*size+res, where+'sum of the particle currents')
    return fo, rho


# ---- textbook equations

@st.composite
def general(draw):
    spec = draw(gen.system(nmin=draw(st.sampled_from([1, 2, 2, 2])), nmax=3, itypes=(1, 2, 2, 3, 3, 0)))
    if spec['itype'] == 0 and spec['n'] == 3:
        spec['itype'] = 2
    spec['k'] = draw(st.sampled_from(BASE))
    spec['py'] = draw(st.booleans())
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['symq'] = draw(st.sampled_from([True, True, True, False]))
    spec['ph'] = draw(gen.phonons(spec['n']))
    if draw(st.booleans()):
        # no diagonal couplings of uncoupled levels: the kernel has no terms of order 1/eps
        spec['ph']['v'] = [e for e in spec['ph']['v'] if e[1] != e[2]] or spec['ph']['v']
        if draw(st.booleans()):
            spec['ph']['dos'] = 'lin'
    if draw(st.integers(0, 4)) == 0:
        # narrow phonon bands
        spec['ph']['D'] = [[draw(gen.num(0, 2, 16)), draw(gen.num(2, 5, 16))] for _ in range(spec['ph']['nb'])]
    # the energy below which excitations count as degenerate, in units of the temperature
    spec['eps'] = draw(st.sampled_from([EPS, EPS, EPS, 1e-3, 0.03, 0.3]))
    spec['rm'] = [[draw(st.sampled_from(['rmstates', 'rmcoh'])), draw(st.integers(1, 63))]
                  for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2])))]
    return spec


def check_general(ctx, spec):
    k = ('py' if spec['py'] else '')+spec['k']
    s = gen.build_elph(spec, spec['ph'], k, indexing=spec['indexing'], symq=spec['symq'],
                       eps_elph=spec.get('eps', EPS))
    run(ctx, s, spec)
    ctx.label(spec['indexing'], '%d baths' % spec['ph']['nb'])


def run(ctx, s, spec, pv=None):
    s.funcp.suppress_err = True
    s.solve(masterq=False)
    if not c04.away_from_edges(s):
        ctx.skip('level at a band edge')
    bad = phonon_edges(s, spec.get('eps', EPS))
    if bad:
        ctx.skip(bad)
    keep = c14.Kept(s)
    done = False
    for op in spec.get('rm', []):
        done |= bool(c14.do(s, op, keep, spec, BASE))
    c14.valid_norm(s)
    s.solve(qdq=False, rotateq=False)
    mask = keep.full_mask(s) if done else None
    states = keep.states if done else None
    if not s.success:
        fo = electronic(s, spec, keep, mask)
        if ref.well_posed(fo):
            ctx.fail('a well-posed system is reported as a failure (success=False)')
        ctx.skip('solve reports failure')
    if done:
        ctx.label('states or coherences removed')
    return check_solution(ctx, s, spec, mask, states, pv)


def electronic(s, spec, keep, mask):
    sub = np.ix_(keep.states, keep.states)
    N = common.charges_of(s)
    dot = ref.Dot(np.array(s.Ea)[keep.states], N[keep.states], np.array(s.Tba)[:, sub[0], sub[1]], s.mulst, s.tlst, s.dlst)
    return ref.FirstOrder(dot, common.base_kerntype(s.kerntype), spec['itype'], None if mask is None else mask[sub])


# ---- principal values

@st.composite
def principal(draw):
    spec = draw(gen.system(nmin=2, nmax=2, lmax=2, itypes=(1, 2, 3)))
    spec['k'] = draw(st.sampled_from(['Redfield', '1vN']))
    spec['py'] = draw(st.booleans())
    spec['indexing'] = 'charge'
    spec['ph'] = draw(gen.phonons(2, nbmax=1))
    spec['ph']['D'] = [[draw(st.sampled_from([0.25, 0.5, 1.0])), draw(gen.num(5, 20, 1))]]
    return spec


def check_principal(ctx, spec):
    k = ('py' if spec['py'] else '')+spec['k']
    s = gen.build_elph(spec, spec['ph'], k, itype_ph=0)
    s.funcp.suppress_err = True
    s.solve(masterq=False)
    E, N = np.array(s.Ea), common.charges_of(s)
    d = np.abs(E[1]-E[2])
    if not c04.away_from_edges(s):
        ctx.skip('level at a band edge')
    if d < 1e-3 or min(abs(d-s.dlst_ph[0])) < 0.02:
        ctx.skip('an excitation near the edge of a phonon band')
    s.solve()
    if not s.success:
        ctx.skip('solve reports failure')
    dot = common.dot_of(s)
    fo = ref.FirstOrder(dot, spec['k'], spec['itype'], None)
    ph = phonon_part(s, spec['ph']['dos'], pv_phonon)(fo)
    rho = common.rho_matrix(s, N)
    size = max(1, np.abs(rho).max())
    if not size < 1e3:
        ctx.skip('ill-conditioned')
    res = fo.rhs(rho)+ph.rhs(rho)
    G = 2*np.pi*(np.abs(dot.up)**2).sum()
    v2 = (np.abs(ph.V)**2).sum()*4
    big = max(1, np.abs(ph.pv).max())
    ctx.close(res, np.zeros_like(res), (1e-12*G+1e-4*v2*big+1e-13*4*ph.size())*size+1e-14,
              '%s master equation with principal values is not satisfied (residual)' % spec['k'])
    # without the principal values the equation is violated
    without = fo.rhs(rho)+phonon_part(s, spec['ph']['dos'])(fo).rhs(rho)
    ctx.nontrivial(np.abs(without).max() > 1e-3*v2*big)
    ctx.label(k)


# ---- spin

@st.composite
def spin(draw):
    sp = draw(c04.spinful())
    if sp['itype'] == 0:
        sp['itype'] = 2
    h = sp['h']
    sp['ph'] = draw(gen.phonons(h))
    sp['n'], sp['nl'] = 2*h, 2*sp['nlh']
    return sp


def check_spin(ctx, sp):
    import qmeq
    k = ('py' if sp['py'] else '')+sp['k']
    kw = c04.spin_kwargs(sp)
    ph, h = sp['ph'], sp['h']
    v = gen.velph_dict(ph)
    if not sp['sym']:
        v = {(b, i+o, j+o): x for (b, i, j), x in v.items() for o in (0, h)}
    s = qmeq.Builder.elph(nbaths=ph['nb'], velph=v, tlst_ph={b: ph['T'][b] for b in range(ph['nb'])},
                          dband_ph={b: tuple(ph['D'][b]) for b in range(ph['nb'])},
                          bath_func=gen.bath_func(ph['dos'], ph['nb'], not sp['py']), kerntype=k,
                          indexing=sp['indexing'], itype_ph=2, **kw)
    s.funcp.suppress_err = True
    s.solve(masterq=False)
    if not c04.away_from_edges(s):
        ctx.skip('level at a band edge')
    E, N = np.array(s.Ea), common.charges_of(s)
    d = np.abs(E[:, None]-E[None, :])
    for lo, hi in s.dlst_ph:
        for x in (lo, hi):
            if x and (np.abs(d-x)[N[:, None] == N[None, :]] < 1e-3).any():
                ctx.skip('an excitation at the edge of a phonon band')
    pairs = (N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)
    for t in s.tlst_ph:
        if (pairs & (d > 0.5*EPS*t) & (d < 2*EPS*t)).any():
            ctx.skip('levels at the distance eps T')
    s.solve()
    if not s.success:
        fo = ref.FirstOrder(common.dot_of(s), sp['k'], sp['itype'], common.kept_mask(s))
        if ref.well_posed(fo):
            ctx.fail('a well-posed system is reported as a failure (success=False)')
        ctx.skip('solve reports failure')
    check_solution(ctx, s, sp)
    ctx.label(sp['indexing'], 'spin symmetry' if sp['sym'] else 'two spin species', '%d orbitals' % h)


# ---- relations between systems

@st.composite
def relations(draw):
    spec = draw(gen.system(nmin=draw(st.sampled_from([1, 2, 2])), nmax=3, lmax=2, itypes=(1, 2, 3)))
    spec['k'] = draw(st.sampled_from(BASE))
    spec['py'] = draw(st.integers(0, 2)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'Lin']))
    spec['ph'] = draw(gen.phonons(spec['n']))
    spec['rel'] = draw(st.sampled_from(['zero', 'band', 'split', 'order', 'phase', 'adjoint', 'scale', 'more']))
    spec['x'] = draw(st.integers(1, 63))
    return spec


def check_relation(ctx, spec):
    k = ('py' if spec['py'] else '')+spec['k']
    rel, x = spec['rel'], spec['x']
    ph = copy.deepcopy(spec['ph'])
    if rel == 'band':
        # every excitation energy is below the phonon band
        ph['D'] = [[5000.0, 5100.0+x] for _ in ph['D']]
    if rel == 'zero':
        ph['v'] = [e[:3]+[0.0, 0.0] for e in ph['v'][:x % 3]]
    if rel in ('split', 'scale'):
        ph['dos'] = 'const' if rel == 'scale' else None

    def build(p, kerntype=k):
        s = gen.build_elph(spec, p, kerntype, indexing=spec['indexing'])
        s.make_kern_copy = True
        s.funcp.suppress_err = True
        s.solve()
        return s
    a = build(ph)
    N = common.charges_of(a)
    if not c04.away_from_edges(a):
        ctx.skip('level at a band edge')
    if rel in ('zero', 'band'):
        b = gen.build(spec, kerntype=k, indexing=spec['indexing'])
        b.make_kern_copy = True
        b.funcp.suppress_err = True
        b.solve()
        size = 0.0
    else:
        q = copy.deepcopy(ph)
        if rel == 'split':
            # two baths with half of the coupling strength each
            nb, r = ph['nb'], np.sqrt(0.5)
            half = [[e[0], e[1], e[2], e[3]*r, e[4]*r] for e in ph['v']]
            q.update(nb=2*nb, v=half+[[e[0]+nb]+e[1:] for e in half], T=ph['T']*2, D=ph['D']*2)
        elif rel == 'order':
            nb = ph['nb']
            if ph['dos'] is not None:
                q['dos'] = ph['dos'] = None
                a = build(ph)
            q.update(v=[[nb-1-e[0]]+e[1:] for e in reversed(ph['v'])], T=ph['T'][::-1], D=ph['D'][::-1])
        elif rel == 'phase':
            z = np.exp(2j*np.pi*x/64)
            q['v'] = [e[:3]+[(complex(e[3], e[4])*z).real, (complex(e[3], e[4])*z).imag] for e in ph['v']]
        elif rel == 'adjoint':
            q['v'] = [[e[0], e[2], e[1], e[3], -e[4]] for e in ph['v']]
        elif rel == 'scale':
            # 0.5 + 0.25 l: the spectral density of bath 0 is one half
            q['dos'] = None
            q['v'] = [[e[0], e[1], e[2], e[3]*np.sqrt(0.5+0.25*e[0]), e[4]*np.sqrt(0.5+0.25*e[0])] for e in ph['v']]
        elif rel == 'more':
            # another bath which couples to nothing
            q.update(nb=ph['nb']+1, T=ph['T']+[1.0], D=ph['D']+[[0.0, 10.0]])
        b = build(q)
        V = np.abs(np.array(a.Vbbp)).max(initial=0)
        size = 1e7*V**2*3
    ctx.close(a.Ea, b.Ea, 1e-12, rel+': energies')
    ka, kb = np.array(a.kern), np.array(b.kern)
    ctx.require(ka.shape == kb.shape, rel+': number of equations')
    scale = np.abs(ka[np.isfinite(ka)]).max(initial=0)
    E = np.array(a.Ea)
    tol = 1e-12*(scale+size)
    ctx.close(ka, kb, tol, rel+': kernel')
    lo, _ = common.conditioning(b)
    err = tol*len(ka)/lo if lo > 0 else np.inf
    if err < 1e-4 and b.success:
        ctx.require(bool(a.success), rel+': failure')
        big = max(1, np.abs(b.phi0).max())**2
        G = 2*np.pi*(np.abs(b.Tba)**2).sum()
        ctx.close(a.phi0, b.phi0, err*big, rel+': density matrix')
        ctx.close(a.current, b.current, (4*err*big+1e-13)*G, rel+': currents')
        e = 4*(1+np.abs(E-E[0]).max()+np.abs(a.mulst).max())
        ctx.close(a.energy_current, b.energy_current, (4*err*big+1e-13)*G*e+1e-13*G*np.abs(a.dlst).max()*big, rel+': energy currents')
        ctx.label('observables')
    ctx.label(rel, k)
    ctx.nontrivial(bool(ph['v']) or rel == 'zero')


# ---- equilibrium

@st.composite
def equilibrium(draw):
    spec = draw(gen.system(nmin=draw(st.sampled_from([1, 2, 2, 2])), nmax=4, lmax=2, itypes=(1, 2, 3), equal_T=True))
    spec['k'] = 'Pauli'
    spec['py'] = draw(st.integers(0, 3)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'Lin']))
    spec['mu'] = [spec['mu'][0]]*spec['nl']
    ph = spec['ph'] = draw(gen.phonons(spec['n'], nbmax=3))
    ph['T'] = [spec['T'][0]]*ph['nb']
    spec['cut'] = draw(st.integers(0, 3)) == 0
    return spec


def check_equilibrium(ctx, spec):
    s = gen.build_elph(spec, spec['ph'], ('py' if spec['py'] else '')+'Pauli', indexing=spec['indexing'])
    s.make_kern_copy = True
    s.funcp.suppress_err = True
    s.solve(masterq=False)
    bad = phonon_edges(s)
    if bad:
        ctx.skip(bad)
    E = np.array(s.Ea)
    keep = np.arange(len(E))
    if spec['cut']:
        cuts = c14.cuts_of(E)
        if len(cuts) > 1:
            dE = cuts[-1-len(cuts)//3]
            s.remove_states(dE)
            keep = np.flatnonzero(E < E.min()+dE)
            ctx.label('states removed')
    s.solve(qdq=False, rotateq=False)
    lo, hi = common.conditioning(s)
    err = 1e-14*hi*len(E)/lo if lo > 0 else np.inf
    if not err < 1e-5:
        ctx.skip('ill-conditioned')
    ctx.require(bool(s.success), 'failure')
    N = common.charges_of(s)
    mu, T = spec['mu'][0], spec['T'][0]
    x = -(E[keep]-mu*N[keep])/T
    w = np.exp(x-x.max())
    w /= w.sum()
    p = np.array([s.get_phi0(b, b).real for b in keep])
    ctx.close(p, w, 10*err+1e-12, 'grand-canonical populations')
    G = 2*np.pi*(np.abs(s.Tba)**2).sum()
    e = 1+np.abs(E-E[0]).max()+abs(mu)
    for cur, f in ((s.current, 1), (s.energy_current, e), (s.heat_current, e)):
        ctx.close(cur, np.zeros(spec['nl']), (20*err+1e-13)*G*f, 'currents in equilibrium')
    ctx.nontrivial((p > 1e-6).sum() > 1)
    ctx.label('%d levels' % spec['n'])


SUBCHECKS = [
    Sub('general', general, check_general, 2500, 40000,
        'random dots, couplings (complex, non-Hermitian), spectral densities and bands; also with removed states and '
        'coherences: residual of the dense equations and currents', shards=6, tshards=16),
    Sub('principal', principal, check_principal, 160, 4000, 'itype_ph=0: principal values included', shards=4, tshards=16),
    Sub('spin', spin, check_spin, 600, 12000, 'sz/ssq/charge/Lin indexing of spin-conserving dots', shards=4, tshards=16),
    Sub('relations', relations, check_relation, 1200, 20000,
        'zero coupling, no spectral density, split baths, exchanged baths, phases, adjoint, scaling', shards=4, tshards=16),
    Sub('equilibrium', equilibrium, check_equilibrium, 800, 14000, 'grand-canonical populations', shards=4, tshards=16),
]
