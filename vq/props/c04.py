"""First-order stationary states and currents satisfy the textbook master equations."""

import itertools

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub

RULE = ('non-trivial: at least two leads or lead-dependent parameters, at least two states with population above '
        '1e-6, and (for the coherent approaches) a coherence or a current above 1e-9')
ASSUMPTIONS = ['numpy dense linear algebra and scipy digamma are correct',
               'residual tolerances scale with the kernel norm; itype=0 integrals are accurate to 5e-6',
               'levels closer than 1e-3 to a band edge are not generated']

APPR = ['Pauli', 'Lindblad', 'Redfield', '1vN']


def away_from_edges(s):
    N = common.charges_of(s)
    E = np.array(s.Ea)
    up = N[:, None] == N[None, :] + 1
    d = (E[:, None]-E[None, :])[up]
    for lo, hi in s.dlst:
        if d.size and min(abs(d-lo).min(), abs(d-hi).min()) < 1e-3:
            return False
    return True


def check_first_order(ctx, s, itype, mask=None, where='', keep=None, phonons=None):
    """Residual, trace, currents and amplitudes of a solved first-order system against the reference.
    keep: the states that take part; mask: the density-matrix elements that take part (among the kept states).
    phonons: makes the phonon part of the equations (ref.Phonons) for the electronic one and the kept states."""
    k = common.base_kerntype(s.kerntype)
    N = common.charges_of(s)
    rho = common.rho_matrix(s, N)
    phi_s = common.phi1_matrix(s, N) if k in ('Redfield', '1vN') else None
    E, T = np.array(s.Ea), np.array(s.Tba)
    if mask is not None:
        ctx.require(not rho[~mask].any(), where+'elements of the density matrix that were removed are not zero')
    if keep is not None:
        out = ~np.isin(np.arange(len(N)), keep)
        ctx.require(not rho[out].any() and not rho[:, out].any(),
                    where+'elements of the density matrix of removed states are not zero')
        ctx.require(phi_s is None or not (phi_s[:, out].any() or phi_s[:, :, out].any()),
                    where+'current amplitudes of removed states are not zero')
        sub = np.ix_(keep, keep)
        E, N, T, rho = E[keep], N[keep], T[:, sub[0], sub[1]], rho[sub]
        mask = None if mask is None else mask[sub]
        phi_s = None if phi_s is None else phi_s[:, sub[0], sub[1]]
    dot = ref.Dot(E, N, T, s.mulst, s.tlst, s.dlst)
    size = np.abs(rho).max()
    if itype == 0 and k in ('Redfield', '1vN') and not ref.quadpack_ok_dot(dot):
        ctx.skip('QUADPACK fails for an integral (known finding C16-dqawc)')
    fo = ref.FirstOrder(dot, k, itype, mask)
    if not size < 1e5:
        if ref.well_posed(fo):
            ctx.fail(where+'elements of the density matrix up to %g for a well-posed system' % size)
        ctx.skip('ill-conditioned: elements of the density matrix above 1e5')
    G = 2*np.pi*(np.abs(dot.up)**2).sum()
    om = np.abs(np.where(fo.mask, fo.de, 0)).max(initial=0)
    Imax = max(1.0, np.abs(fo.I0).max(initial=0), np.abs(fo.I1).max(initial=0))
    erel = common.quad_err(itype) if k in ('Redfield', '1vN') else 1e-13
    n = dot.n
    tol = (4*G*(erel + 1e-13*n*Imax) + 1e-13*n*om)*max(size, 1) + 1e-15
    ctx.close(np.trace(rho), 1, 1e-9*max(size, 1), where+'trace of the density matrix')
    res = fo.rhs(rho)
    if phonons is not None:
        ph = phonons(fo, keep)
        res = res + ph.rhs(rho)
        tol += (1e-13*n*ph.size()+(2e-16*n*ph.largest() if k == '1vN' else 0))*max(size, 1)
    ctx.close(res, np.zeros_like(res), tol, where+'%s master equation is not satisfied (residual)' % k)
    cur, ecur, heat = fo.currents(rho)
    emax = np.abs(dot.E[:, None]-dot.E[None, :]).max(initial=0) + np.abs(dot.mu).max()
    ctol = (4*G*(erel + 1e-13*n*Imax))*max(size, 1) + 1e-15
    ctx.close(s.current, cur, ctol, where+'particle currents')
    # energy integrals of itype 0/1 carry band-edge terms multiplied by exactly cancelling factors
    band = np.abs(dot.dband).max() if itype in (0, 1) else 0
    etol = ctol*(1+emax) + 1e-13*n*G*band*max(size, 1)
    ctx.close(s.energy_current, ecur, etol, where+'energy currents')
    ctx.close(s.heat_current, heat, etol, where+'heat currents')
    if k in ('Redfield', '1vN'):
        phi = fo.phi1(np.where(fo.mask, rho, 0))
        ctx.close(phi_s, np.where((N[:, None] == N[None, :]+1)[None], phi, 0),
                  (np.sqrt(G)*(erel+1e-13*n*Imax))*4*max(size, 1) + 1e-15, where+'current amplitudes')
    p = np.diag(rho).real
    coh = np.abs(rho-np.diag(np.diag(rho))).max(initial=0)
    ctx.label(k)
    if coh > 1e-9:
        ctx.label('coherences')
    if np.abs(cur).max(initial=0) > 1e-9:
        ctx.label('currents')
    ctx.nontrivial((p > 1e-6).sum() >= 2 and (np.abs(cur).max(initial=0) > 1e-9 or coh > 1e-9))
    return fo, rho


def solved(ctx, s, itype):
    s.solve(masterq=False)
    if not away_from_edges(s):
        ctx.skip('level at a band edge')
    s.solve()
    if not s.success:
        fo = ref.FirstOrder(common.dot_of(s), common.base_kerntype(s.kerntype), itype, common.kept_mask(s))
        if ref.well_posed(fo):
            ctx.fail('a well-posed system is reported as a failure (success=False)')
        ctx.skip('solve reports failure')


# ------------------------------------------------------------------------------------------------

@st.composite
def general(draw, large=False):
    spec = draw(gen.system(nmin=4, nmax=5, lmax=4, itypes=(1, 2, 3)) if large else gen.system(nmax=3))
    if draw(st.integers(0, 4)) == 0:
        nl = spec['nl']
        spec['D'] = [[-draw(gen.num(1, 6, 16)), draw(gen.num(1, 6, 16))] for _ in range(nl)]
        spec['narrow'] = True
    spec['k'] = draw(st.sampled_from(APPR))
    spec['py'] = draw(st.integers(0, 3)) == 0 and spec['n'] == 4 if large else draw(st.booleans())
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['symq'] = draw(st.sampled_from([True, True, True, False]))
    return spec


def check_general(ctx, spec):
    s = gen.build(spec, kerntype=('py' if spec['py'] else '')+spec['k'], indexing=spec['indexing'],
                  symq=spec['symq'])
    solved(ctx, s, spec['itype'])
    check_first_order(ctx, s, spec['itype'])
    ctx.label('itype%d' % spec['itype'], spec['indexing'], 'py' if spec['py'] else 'compiled',
              'narrow band' if spec.get('narrow') else 'wide band', '%d leads' % spec['nl'])


@st.composite
def near_degenerate(draw):
    """Levels split by at most the coupling: coherences are of order one."""
    spec = draw(gen.system(nmin=2, nmax=3, lmin=2, lmax=3, t=0.5, emax=0.05, umax=4.0, itypes=(0, 1, 2, 2, 3)))
    e = draw(gen.num(-1.5, 1.0))
    spec['hs'] = [[i, j, (x+e if i == j else 0.1*x), 0.1*y] for i, j, x, y in spec['hs']]
    spec['k'] = draw(st.sampled_from(APPR[1:]))
    spec['py'] = draw(st.integers(0, 3)) == 0
    spec['indexing'] = 'charge'
    spec['symq'] = True
    return spec


@st.composite
def spinful(draw, big=False):
    """A spin-symmetric or spin-conserving system in sz/ssq indexing, given by its spin-up half (symmetry='spin')
    or with separate spin species (sz only)."""
    h = draw(st.integers(1, 2))
    nlh = draw(st.integers(1, 2))
    real = draw(st.booleans())
    # three orbitals have spin multiplets beyond the triplet
    h3 = big and draw(st.integers(0, 5)) == 5
    if h3:
        h, nlh = 3, draw(st.sampled_from([1, 2, 2]))
    sp = dict(h=h, nlh=nlh, hs=draw(gen.hsingle(h, real, 2.0)), tl=draw(gen.tunnel(h, nlh, real)),
              U=draw(gen.num(0, 5)), V=draw(gen.num(0, 2)), J=draw(gen.num(0, 1)) if h >= 2 else 0.0,
              P=draw(gen.num(-1, 1)) if h >= 2 else 0.0,
              mu=[draw(gen.num(-2, 2)) for _ in range(nlh)], T=[draw(gen.num(0.3, 1.5)) for _ in range(nlh)],
              D=draw(gen.num(40, 80, 1)), itype=draw(st.sampled_from([1, 2, 2, 3, 0])))
    if sp['itype'] == 0 and h >= 2:
        sp['itype'] = 2
    sp['k'] = draw(st.sampled_from(APPR)) if not h3 else 'Pauli'
    sp['py'] = draw(st.integers(0, 3)) == 0
    sp['indexing'] = draw(st.sampled_from(['sz', 'ssq', 'charge', 'Lin'] if not h3 else ['ssq', 'sz', 'charge']))
    sp['sym'] = draw(st.booleans()) or sp['indexing'] == 'ssq'
    if not sp['sym']:
        # a field and spin-dependent amplitudes
        sp['B'] = draw(gen.num(-1, 1))
        sp['pol'] = draw(gen.num(0.5, 1.5))
    return sp


def spin_kwargs(sp):
    """Constructor arguments.  Levels i and i+h are the two spins of orbital i, leads likewise."""
    h, nlh = sp['h'], sp['nlh']
    n = 2*h
    # orbital elements, expanded to all spin combinations s, s': d_ms+ d_ns'+ d_ks' d_ls
    orb = {(i, i, i, i): sp['U'] for i in range(h)}
    for i, j in itertools.combinations(range(h), 2):
        f = 1.0 if j == 1 else 0.5 + 0.25*i
        orb[(i, j, j, i)] = f*sp['V']
        orb[(i, j, i, j)] = f*sp['J']
        orb[(i, i, j, j)] = orb[(j, j, i, i)] = f*sp['P']
    if sp['sym']:
        co = orb
    else:
        co = {}
        for (a, b, c, d), u in orb.items():
            for key in ((a, b, c, d), (a, b+h, c+h, d), (b, a+h, d+h, c), (a+h, b+h, c+h, d+h)):
                if key[0] != key[1] and key[2] != key[3]:
                    co[key] = u
    hs = {(i, j): gen.cx(re, im) for i, j, re, im in sp['hs']}
    tl = {(l, i): gen.cx(re, im) for l, i, re, im in sp['tl']}
    mu = {l: sp['mu'][l] for l in range(nlh)}
    T = {l: sp['T'][l] for l in range(nlh)}
    if not sp['sym']:
        hs2 = dict(hs)
        for (i, j), v in hs.items():
            hs2[(i+h, j+h)] = v + (sp['B'] if i == j else 0)
        tl2 = dict(tl)
        for (l, i), v in tl.items():
            tl2[(l+nlh, i+h)] = v*sp['pol']
        hs, tl = hs2, tl2
        mu.update({l+nlh: sp['mu'][l] for l in range(nlh)})
        T.update({l+nlh: sp['T'][l] for l in range(nlh)})
    return dict(nsingle=n, hsingle=hs, coulomb=co, nleads=2*nlh, tleads=tl, mulst=mu, tlst=T,
                dband=float(sp['D']), itype=sp['itype'], symmetry='spin' if sp['sym'] else None)


def spin_build(sp, **over):
    import qmeq
    kw = spin_kwargs(sp)
    kw.update(over)
    return qmeq.Builder.base(**kw)


def check_spinful(ctx, sp):
    s = spin_build(sp, kerntype=('py' if sp['py'] else '')+sp['k'], indexing=sp['indexing'])
    solved(ctx, s, sp['itype'])
    # spin is conserved by dot and leads: the restricted sets of elements solve the full equations
    check_first_order(ctx, s, sp['itype'])
    ctx.label(sp['indexing'], 'spin symmetry' if sp['sym'] else 'two spin species', '%d orbitals' % sp['h'])


SUBCHECKS = [
    Sub('general', general, check_general, 4000, 60000,
        'random dots (1-3 levels, 1-3 leads, complex elements, exchange), all approaches and integral types', shards=6,
        tshards=16),
    Sub('large', lambda: general(True), check_general, 300, 5000,
        'the same with 4-5 levels and up to four leads', shards=6, tshards=16),
    Sub('near_degenerate', near_degenerate, check_general, 1200, 20000,
        'levels split by less than the tunnelling rates, so that coherences matter', shards=4, tshards=16),
    Sub('spinful', spinful, check_spinful, 1200, 20000,
        'spin-conserving dots (1-2 orbitals) in sz/ssq/charge/Lin indexing, with and without the symmetry option',
        shards=4, tshards=16),
]
