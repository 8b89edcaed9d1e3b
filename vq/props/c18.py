"""The RTD approach: exact second order without interactions, exact first-order populations in equilibrium, first-order
limit, conservation laws and invariances at any coupling strength."""

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub
from . import c17

RULE = ('non-trivial: a current above 1e-9 flows (comparisons with references: a second-order contribution above 1e-6 '
        'of the squared rate)')
ASSUMPTIONS = [
    'wide-band limit: half-bandwidth 1e4, as the approach documents; states of equal charge differ in energy',
    'expansions are obtained by extrapolation from three coupling strengths to zero',
    'complex amplitudes: the frequency sums of the approach are approximate (populations: relative error up to 1e-3 of '
    'the correction allowed); energy currents are not available then']

GS = (0.04, 0.02, 0.01)
D = 1e4


@st.composite
def dot(draw, nmin=1, nmax=3, lmin=1, lmax=3, inter=True, cplx=0, equal_T=False, equal_mu=False):
    n = draw(st.integers(nmin, nmax))
    nl = draw(st.integers(lmin, lmax))
    cx = draw(st.integers(0, 9)) < cplx
    spec = dict(n=n, nl=nl, cplx=cx)
    es = draw(st.lists(st.integers(-10, 10), min_size=n, max_size=n, unique=True))
    hs = [[i, i, e/4+draw(gen.num(-0.05, 0.05)), 0.0] for i, e in enumerate(es)]
    for i in range(n):
        for j in range(i+1, n):
            if draw(st.booleans()):
                hs.append([i, j]+draw(gen.nzcplx(0.7, real=not cx)))
    spec['hs'] = hs
    spec['co'] = draw(gen.coulomb(n, not cx, 4.0, exchange=inter)) if n > 1 and inter else []
    spec['tl'] = []
    for i in range(n):
        for l in range(nl):
            if l == i % nl or draw(st.integers(0, 9)):
                z = draw(gen.nzcplx(0.5, real=not cx))
                spec['tl'].append([l, i, z[0]+(0.125 if z[0] >= 0 else -0.125), z[1]])
    mu0 = draw(gen.num(-2, 2))
    spec['mu'] = [mu0 if equal_mu or l == 0 else draw(gen.num(-2, 2)) for l in range(nl)]
    T0 = draw(gen.num(0.5, 1.5))
    eq = equal_T or draw(st.booleans())
    spec['T'] = [T0 if eq or l == 0 else draw(gen.num(0.5, 1.5)) for l in range(nl)]
    spec['py'] = n < 3 and draw(st.integers(0, 5)) == 0
    spec['order'] = draw(st.permutations(range(n)))
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    return spec


def amplitudes(spec, g=1.0):
    return {k: v*np.sqrt(g) for k, v in gen.tl_dict(spec).items()}


def make(spec, g=1.0, k='RTD', solve=True, tl=None, mu=None, T=None, band=D, **kw):
    import qmeq
    mu = spec['mu'] if mu is None else mu
    T = spec['T'] if T is None else T
    k = 'py'+k if spec['py'] else k
    s = qmeq.Builder.base(spec['n'], gen.hs_dict(spec), gen.co_dict(spec), len(mu),
                          amplitudes(spec, g) if tl is None else tl, list(mu), list(T), band, kerntype=k, itype=1,
                          indexing=spec['indexing'], herm_c=False, **kw)
    if 'RTD' in k:
        s.appr.printed_warning_ImGamma = True
    if solve:
        s.solve()
    return s


def gap_of(s):
    E, N = np.array(s.Ea), common.charges_of(s)
    m = (N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)
    return np.abs(E[:, None]-E[None, :])[m].min(initial=9.0)


def energies(ctx, spec, lo):
    """Energies, charges and a scale for the coupling: the rates are compared with temperature and level distance."""
    s = make(spec, k='Pauli', solve=False)
    s.make_kern_copy = True
    s.solve()
    gap = gap_of(s)
    if gap < lo:
        ctx.skip('states of equal charge closer than %g' % lo)
    a, b = common.conditioning(s)
    if not a > 1e-3*min(b, 1):
        ctx.skip('first order nearly singular')
    n = spec['n']
    W = np.zeros(n)
    for (l, i), v in gen.tl_dict(spec).items():
        W[i] += 2*np.pi*abs(v)**2
    Gam = W.sum()
    scale = min(min(spec['T']), gap)/Gam
    return s, gap, Gam, scale


def extrapolate(gs, rows):
    return np.linalg.solve(np.vander(gs, len(gs), increasing=True), np.array(rows))


# ---- non-interacting levels: the exact currents to second order

def panels(pts, order=24):
    x, w = np.polynomial.legendre.leggauss(order)
    pts = np.array(sorted(set(pts)))
    h = .5*(pts[1:]-pts[:-1])[:, None]
    return (h*x+.5*(pts[1:]+pts[:-1])[:, None]).ravel(), (h*w).ravel()


def exact_currents(h, t, mu, T):
    """Particle and energy currents of non-interacting levels with structureless leads (transmission formula) for the
    dot sum h_ij d_j^+ d_i and the tunnelling sum t_li d_i^+ c_l + h.c."""
    n, nl = len(h), len(mu)
    h = h.T
    Gam = [2*np.pi*np.outer(t[l], t[l].conj()) for l in range(nl)]
    H = h-0.5j*sum(Gam)
    lo, hi = min(mu)-40*max(T), max(mu)+40*max(T)
    pts = {lo, hi}
    for c, w in [(e.real, max(abs(e.imag), 1e-9)) for e in np.linalg.eigvals(H)]+list(zip(mu, T)):
        for k in range(-6, 40):
            for sg in (-1, 0, 1):
                x = c+sg*w*2.**(k/1.5)
                if lo < x < hi:
                    pts.add(x)
    x, w = panels(pts)
    G = np.linalg.inv(x[:, None, None]*np.eye(n)-H)
    I, J = np.zeros(nl), np.zeros(nl)
    f = [ref.fermi((x-mu[l])/T[l]) for l in range(nl)]
    for l in range(nl):
        for k in range(nl):
            if k != l:
                A = np.einsum('ij,xjk->xik', Gam[l], G)
                B = np.einsum('ij,xkj->xik', Gam[k], G.conj())
                tr = np.einsum('xij,xji->x', A, B).real
                I[l] += np.sum(w*tr*(f[l]-f[k]))/(2*np.pi)
                J[l] += np.sum(w*x*tr*(f[l]-f[k]))/(2*np.pi)
    return I, J


@st.composite
def close(draw, **kw):
    # two levels much closer than the temperature (and still further apart than the rates), possibly hybridised
    spec = draw(dot(nmin=2, **kw))
    d = draw(gen.num(1.0, 3.0))*10.0**-draw(st.integers(1, 4))
    spec['close'] = d
    spec['hs'] = [h for h in spec['hs'] if h[:2] not in ([0, 1], [1, 1])]
    spec['hs'].append([1, 1, spec['hs'][0][2]+draw(st.sampled_from([-d, d])), 0.0])
    if draw(st.booleans()):
        spec['hs'].append([0, 1, draw(st.sampled_from([-d, d]))*draw(gen.num(0.2, 1.5)), 0.0])
    return spec


def check_nonint(ctx, spec):
    n, nl = spec['n'], spec['nl']
    s, gap, Gam, scale = energies(ctx, spec, 0.2*spec.get('close', 1.0))
    h = np.zeros((n, n), dtype=complex)
    for (i, j), v in gen.hs_dict(spec).items():
        h[i, j] = v
        if i != j:
            h[j, i] = np.conj(v)
    t = np.zeros((nl, n), dtype=complex)
    for (l, i), v in gen.tl_dict(spec).items():
        t[l, i] = v
    rows, second = [], []
    for g in GS:
        g *= scale
        I, J = exact_currents(h, t*np.sqrt(g), spec['mu'], spec['T'])
        s = make(spec, g)
        ctx.require(s.success, 'the solution failed')
        rows.append(np.concatenate([s.current-I, s.energy_current-J])/(g*Gam)**2)
        second.append(np.concatenate([I, J])/(g*Gam))
    gs = np.array(GS)
    c = extrapolate(gs, rows)
    want = extrapolate(gs*scale*Gam, second)[1]
    Tm = min(spec['T'])
    scale_E = 1+max(np.abs(s.Ea).max(), np.abs(spec['mu']).max(), max(spec['T']))
    cl = bool(np.abs(np.imag(h)).max() > 0 or np.abs(np.imag(t)).max() > 0)
    ctx.label('%d levels' % n, '%d leads' % nl, 'complex' if cl else 'real', 'Python' if spec['py'] else 'compiled',
              'gap <0.5' if gap < .5 else 'gap >=0.5', 'unequal T' if len(set(spec['T'])) > 1 else 'equal T')
    ctx.nontrivial(np.abs(want).max() > 1e-6)
    # single large terms cancel in the correction (close levels): observed up to 1.5e-8/gap
    tol = TOL_NONINT+(3e-7/gap if 'close' in spec else 0)
    ctx.close(c[0][:nl], np.zeros(nl), tol, 'second-order particle currents (over Gamma^2): RTD minus exact')
    if not cl:
        ctx.close(c[0][nl:], np.zeros(nl), tol*scale_E, 'second-order energy currents (over Gamma^2): RTD minus exact')


TOL_NONINT = 1e-5


# ---- equilibrium: populations to first order in the rates

def equilibrium_populations(E, N, T2, mu, T):
    """Zeroth order and first-order coefficient of the populations: derivative of the free energy with respect to the
    energies.  T2[c, b]: sum over leads of |T_cb|^2 where N_c = N_b + 1."""
    x = -(E-mu*N)/T
    w = np.exp(x-x.max())
    p = w/w.sum()
    n = len(E)
    dF = np.zeros(n)
    for c, b in np.argwhere(N[:, None] == N[None, :]+1):
        z = .5+1j*(E[c]-E[b]-mu)/(2*np.pi*T)
        A = ref.digamma_c(z).real
        dA = (1j*np.asarray(ref.polygamma_c(z, 1)).ravel()[0]/(2*np.pi*T)).real
        for a in range(n):
            ds = -(1/T)*(p[b]*((a == b)-p[a])+p[c]*((a == c)-p[a]))
            dF[a] += T2[c, b]*(ds*A+(p[b]+p[c])*dA*((a == c)-1.0*(a == b)))
    return p, dF


def check_equilibrium(ctx, spec):
    s, gap, Gam, scale = energies(ctx, spec, 0.2*spec.get('close', 1.0))
    mu, T = spec['mu'][0], spec['T'][0]
    rows, cur = [], []
    for g in GS:
        g *= scale
        s = make(spec, g)
        ctx.require(s.success, 'the solution failed')
        E, N = np.array(s.Ea), common.charges_of(s)
        T2 = (np.abs(s.Tba)**2).sum(0)
        T2 = np.array(T2, dtype=float)/g
        p0, d = equilibrium_populations(E, N, T2, mu, T)
        p = np.array([s.get_phi0(b, b).real for b in range(len(E))])
        rows.append((p-p0)/(g*Gam)-d/Gam)
        cur.append(np.array(s.current)/(g*Gam)**2)
    gs = np.array(GS)
    cl = spec['cplx']
    ctx.label('%d levels' % spec['n'], '%d leads' % spec['nl'], 'interacting' if spec['co'] else 'non-interacting',
              'complex' if cl else 'real', 'Python' if spec['py'] else 'compiled', 'gap <0.5' if gap < .5 else 'gap >=0.5')
    ctx.nontrivial(np.abs(d).max() > 1e-6*Gam)
    e = extrapolate(gs, rows)[0]
    loss = 3e-7/gap if 'close' in spec else 0
    ctx.close(e, np.zeros_like(e), (1e-3 if cl else 3e-5)/T+loss, 'first-order populations (over Gamma): RTD minus exact')
    ctx.close(extrapolate(gs, cur)[0], np.zeros(spec['nl']), (1e-3 if cl else 1e-5)/T+loss,
              'second-order current in equilibrium')


# ---- limit of weak coupling

def check_weak(ctx, spec):
    s, gap, Gam, scale = energies(ctx, spec, 0.2)
    nl = spec['nl']
    rows = []
    # the slowest process of first order has to be faster than the ones of second order
    lo, hi = common.conditioning(s)
    slow = min(1.0, 10*lo/hi)
    for g in GS:
        g *= scale*slow
        a = make(spec, g)
        b = make(dict(spec, indexing='charge'), g, k='Pauli')
        ctx.require(a.success and b.success, 'the solution failed')
        pa, pb = ([x.get_phi0(i, i).real for i in range(len(x.Ea))] for x in (a, b))
        ea = np.zeros(nl) if spec['cplx'] else a.energy_current-b.energy_current
        rows.append(np.concatenate([(a.current-b.current)/(g*Gam), ea/(g*Gam), np.array(pa)-pb]))
    ctx.label('%d levels' % spec['n'], '%d leads' % nl, 'interacting' if spec['co'] else 'non-interacting')
    ctx.nontrivial(np.abs(b.current).max() > 1e-9)
    e = extrapolate(np.array(GS), rows)[0]
    ctx.close(e, np.zeros_like(e), 1e-5, 'zero-coupling limit: RTD minus Pauli')


# ---- any coupling

def check_invariants(ctx, spec):
    n, nl = spec['n'], spec['nl']
    s = make(spec)
    if not s.success:
        ctx.skip('no solution')
    tl = gen.tl_dict(spec)
    Gam = sum(2*np.pi*abs(v)**2 for v in tl.values())
    # the reported matrix of the populations after the elimination determines the accuracy
    lo, hi = common.conditioning(make_copy(spec))
    if lo < 1e-6*max(hi, 1) or gap_of(s) < 1e-2:
        ctx.skip('ill-conditioned')
    cl = spec['cplx']
    size = max(1, np.abs(s.phi0).max())
    amp = (1+Gam)*size*(1+1/gap_of(s))**2*(1+1/lo)
    tol = (1e-5 if cl else 1e-11)*amp*(1+Gam)
    if not tol < 1e-3:
        ctx.skip('ill-conditioned')
    cur, ecur, heat = (np.array(x) for x in (s.current, s.energy_current, s.heat_current))
    scale_E = 1+np.abs(s.Ea).max()+np.abs(spec['mu']).max()
    ctx.label('%d levels' % n, '%d leads' % nl, 'complex' if cl else 'real', 'Python' if spec['py'] else 'compiled',
              spec['what'])
    ctx.nontrivial(np.abs(cur).max() > 1e-9)
    rho = np.array(s.phi0)
    ctx.close(rho[:s.si.npauli].sum(), 1.0, tol, 'trace')
    ctx.close(cur.sum(), 0.0, tol, 'sum of the particle currents')
    if not cl:
        ctx.close(heat, ecur-np.array(spec['mu'])*cur, 1e-12*(np.abs(ecur).max()+10*np.abs(cur).max()), 'heat currents')
    pops = [s.get_phi0(b, b).real for b in range(len(s.Ea))]

    def compare(u, leads, what, tol):
        ctx.require(u.success, what+': the solution failed')
        ctx.close([u.get_phi0(b, b).real for b in range(len(u.Ea))], pops, tol, what+': populations')
        for l, ls in enumerate(leads):
            ctx.close(sum(u.current[k] for k in ls), cur[l], tol, what+': particle current of lead %d' % l)
            if not cl:
                ctx.close(sum(u.energy_current[k] for k in ls), ecur[l], tol*scale_E, what+': energy current of lead %d' % l)

    w = spec['what']
    mu, T = list(spec['mu']), list(spec['T'])
    same = [[l] for l in range(nl)]
    a = spec['lead'] % nl
    if w == 'split':
        # a lead and two leads with the same filling are the same environment
        x = spec['angle']
        tl2 = {}
        for (l, i), v in tl.items():
            tl2[(l, i)] = v*np.cos(x) if l == a else v
            if l == a:
                tl2[(nl, i)] = v*np.sin(x)
        u = make(spec, tl=tl2, mu=mu+[mu[a]], T=T+[T[a]])
        same[a] = [a, nl]
        compare(u, same, 'lead %d split in two' % a, tol)
    elif w == 'rotate':
        # leads with the same filling, their amplitudes rotated into each other
        x = spec['angle']
        b = (a+1) % nl
        if nl < 2:
            ctx.skip('one lead')
        mu[b], T[b] = mu[a], T[a]
        s0 = make(spec, mu=mu, T=T)
        t = {k: 0.0 for k in [(l, i) for l in range(nl) for i in range(n)]}
        t.update(tl)
        r = dict(t)
        for i in range(n):
            r[(a, i)] = t[(a, i)]*np.cos(x)+t[(b, i)]*np.sin(x)
            r[(b, i)] = -t[(a, i)]*np.sin(x)+t[(b, i)]*np.cos(x)
        u = make(spec, tl=r, mu=mu, T=T)
        cur, ecur = np.array(s0.current), np.array(s0.energy_current)
        pops[:] = [s0.get_phi0(k, k).real for k in range(len(s0.Ea))]
        lo0 = common.conditioning(make_copy(spec, mu=mu, T=T))[0]
        if lo0 < 0.1*lo:
            ctx.skip('ill-conditioned')
        ctx.close([u.get_phi0(k, k).real for k in range(len(u.Ea))], pops, tol, 'rotated leads: populations')
        ctx.close(u.current[a]+u.current[b], cur[a]+cur[b], tol, 'rotated leads: particle current of both')
        for l in range(nl):
            if l not in (a, b):
                ctx.close(u.current[l], cur[l], tol, 'rotated leads: particle current of another')
        if not cl:
            ctx.close(u.energy_current[a]+u.energy_current[b], ecur[a]+ecur[b], tol*scale_E, 'rotated leads: energy current of both')
    elif w == 'band':
        # far away band edges do not matter
        u = make(spec, band=2*D)
        compare(u, same, 'twice the bandwidth', tol+1e-6*amp*scale_E)
    elif w == 'spectator':
        tl2 = dict(tl)
        tl2.update({(nl, i): 0.0 for i in range(n)})
        u = make(spec, tl=tl2, mu=mu+[spec['angle']], T=T+[1.0])
        # (another temperature selects the approximate frequency sums)
        compare(u, same, 'a decoupled lead added', tol+1e-6*amp)
        ctx.close(u.current[nl], 0.0, tol, 'current of a decoupled lead')
    elif w == 'shift':
        # energies and chemical potentials shifted together
        x = spec['angle']
        hs = [[i, j, re+x*(i == j), im] for i, j, re, im in spec['hs']]
        u = make(dict(spec, hs=hs), mu=[m+x for m in mu])
        ctx.close([u.get_phi0(b, b).real for b in range(len(u.Ea))], pops, tol+1e-9, 'shift of all energies: populations')
        ctx.close(u.current, cur, tol+1e-9*Gam, 'shift of all energies: particle currents')
        if not cl:
            ctx.close(u.heat_current, heat, (tol+1e-9*Gam)*scale_E, 'shift of all energies: heat currents')
    elif w == 'units':
        # all energies in other units
        x = 2.0**(spec['lead']-1)
        hs = [[i, j, re*x, im*x] for i, j, re, im in spec['hs']]
        co = [c[:4]+[c[4]*x, c[5]*x] for c in spec['co']]
        u = make(dict(spec, hs=hs, co=co), tl={k: v*np.sqrt(x) for k, v in tl.items()}, mu=[m*x for m in mu],
                 T=[t*x for t in T], band=D*x)
        ctx.close([u.get_phi0(b, b).real for b in range(len(u.Ea))], pops, tol, 'other units: populations')
        ctx.close(np.array(u.current)/x, cur, tol, 'other units: particle currents')
        if not cl:
            ctx.close(np.array(u.energy_current)/x**2, ecur, tol*scale_E, 'other units: energy currents')


def make_copy(spec, **kw):
    """The matrix of first order, as an estimate of the sensitivity."""
    s = make(spec, k='Pauli', solve=False, **kw)
    s.make_kern_copy = True
    s.solve()
    return s


@st.composite
def invariants(draw):
    spec = draw(dot(cplx=3, lmin=1))
    spec['what'] = draw(st.sampled_from(['split', 'split', 'rotate', 'band', 'spectator', 'shift', 'units']))
    spec['lead'] = draw(st.integers(0, 3))
    spec['angle'] = draw(gen.num(-3, 3))
    return spec


SUBCHECKS = [
    Sub('nonint', lambda: dot(lmin=2, inter=False, cplx=4), check_nonint, 240, 4000,
        'the second-order term of the exact currents exceeds 1e-6 of the squared rate', shards=4, tshards=8),
    Sub('close', lambda: close(lmin=2, inter=False), check_nonint, 120, 2000,
        'the second-order term of the exact currents exceeds 1e-6 of the squared rate', shards=2, tshards=8),
    Sub('equilibrium', lambda: dot(cplx=3, equal_T=True, equal_mu=True), check_equilibrium, 240, 4000,
        'a first-order correction of the populations above 1e-6', shards=2, tshards=8),
    Sub('eqclose', lambda: close(equal_T=True, equal_mu=True), check_equilibrium, 80, 1600,
        'a first-order correction of the populations above 1e-6', shards=2, tshards=8),
    Sub('weak', lambda: dot(lmin=2, cplx=2), check_weak, 160, 2400, 'a current flows', shards=2, tshards=8),
    Sub('interacting', c17.interacting, c17.check_interacting, 12, 80, 'converged', shards=2, tshards=4, threads=2),
    Sub('invariants', invariants, check_invariants, 300, 5000, 'a current above 1e-9 flows', shards=2, tshards=8),
]
