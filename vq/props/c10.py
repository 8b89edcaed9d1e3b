"""Observables do not depend on how the system is written down."""

import itertools

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub
from .c08 import scales

RULE = ('non-trivial: at least two many-body states populated above 1e-9, a current above 1e-9 or a coherence, and an '
        'error bound of the linear solve below 1e-4')
ASSUMPTIONS = ['differences allowed: rounding and quadrature error over the smallest singular value, measured per case',
               'basis-dependent approaches (Pauli; in general phonon rates) are compared only without near-degenerate levels; '
               'exactly degenerate levels with phonons have their own generator']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']


# ---- a system as matrices: H = sum A_ab d_a+ d_b + sum U_mnkl d_m+ d_n+ d_k d_l, sum t_li d_i+ c_l + h.c.,
# ---- phonons sum v_bij d_i+ d_j

def mats(spec):
    n, nl = spec['n'], spec['nl']
    A = np.zeros((n, n), dtype=complex)
    for (i, j), h in gen.hs_dict(spec).items():
        A[j, i] += h
        if i != j:
            A[i, j] += np.conj(h)
    U = np.zeros((n,)*4, dtype=complex)
    for key, u in gen.co_dict(spec).items():
        U[key] += u
    t = np.zeros((nl, n), dtype=complex)
    for (l, i), x in gen.tl_dict(spec).items():
        t[l, i] += x
    D = gen.dlst(spec)
    m = dict(A=A, U=U, t=t, mu=np.array(spec['mu']), T=np.array(spec['T']), D=D)
    if 'ph' in spec:
        ph = spec['ph']
        v = np.zeros((ph['nb'], n, n), dtype=complex)
        for (b, i, j), x in gen.velph_dict(ph).items():
            v[b, i, j] += x
        m.update(v=v, Tph=np.array(ph['T']), Dph=np.array(ph['D']))
    return m


def build(m, spec, **over):
    import qmeq
    n, nl = m['A'].shape[0], m['t'].shape[0]

    def c(x):
        x = complex(x)
        return x if x.imag else x.real
    kw = dict(nsingle=n, hsingle={(i, j): c(m['A'][j, i]) for i in range(n) for j in range(i, n)},
              coulomb={k: c(m['U'][k]) for k in itertools.product(range(n), repeat=4)
                       if m['U'][k] != 0 and k[0] != k[1] and k[2] != k[3]},
              nleads=nl, tleads={(l, i): c(m['t'][l, i]) for l in range(nl) for i in range(n)},
              mulst={l: float(m['mu'][l]) for l in range(nl)}, tlst={l: float(m['T'][l]) for l in range(nl)},
              dband={l: tuple(float(x) for x in m['D'][l]) for l in range(nl)}, itype=spec['itype'],
              kerntype=('py' if spec['py'] else '')+spec['k'], indexing=spec['indexing'])
    f = qmeq.Builder.base
    if 'v' in m:
        nb = m['v'].shape[0]
        kw.update(nbaths=nb, velph={(b, i, j): c(m['v'][b, i, j]) for b in range(nb) for i in range(n) for j in range(n)},
                  tlst_ph={b: float(m['Tph'][b]) for b in range(nb)},
                  dband_ph={b: tuple(float(x) for x in m['Dph'][b]) for b in range(nb)},
                  bath_func=gen.bath_func(spec['ph']['dos'], nb, not spec['py']), itype_ph=2)
        f = qmeq.Builder.elph
    kw.update(over)
    return f(**kw)


def rotate(m, V):
    """d_i = sum_j V_ij d'_j with unitary V."""
    r = dict(m)
    Vc = V.conj()
    r['A'] = Vc.T @ m['A'] @ V
    r['t'] = m['t'] @ Vc
    r['U'] = np.einsum('mnkl,ma,nb,kc,ld->abcd', m['U'], Vc, Vc, V, V)
    if 'v' in m:
        r['v'] = np.array([Vc.T @ v @ V for v in m['v']])
    return r


def unitary(seed, n):
    """Deterministic unitary from three small integers."""
    rng = np.random.RandomState(seed)
    q, r = np.linalg.qr(rng.normal(size=(n, n))+1j*rng.normal(size=(n, n)))
    return q


PERMS = {n: list(itertools.permutations(range(n))) for n in range(1, 7)}


def transform(m, kind, x, itype):
    """Returns (matrices, lead map, function of (current, energy current) expected, changed spectrum map) or None.
    lead map g: list over original leads of the lists of new leads whose currents add up to theirs."""
    n, nl = m['A'].shape[0], m['t'].shape[0]
    g = [[l] for l in range(nl)]

    def same(I, J):
        return I, J
    r = dict(m)
    if kind == 'levels':
        p = PERMS[n][x % len(PERMS[n])]
        V = np.zeros((n, n))
        for i, j in enumerate(p):
            V[i, j] = 1
        return rotate(m, V), g, same, 'same'
    if kind == 'leads':
        p = PERMS[nl][x % len(PERMS[nl])]       # new lead p[l] is the old lead l
        inv = np.argsort(p)
        for k in ('t', 'mu', 'T', 'D'):
            r[k] = m[k][inv]
        return r, [[p[l]] for l in range(nl)], same, 'same'
    if kind == 'gauge':
        ph = np.exp(1j*np.array([(x*(i+1) % 17) for i in range(n)]))
        r = rotate(m, np.diag(ph))
        r['t'] = r['t']*np.exp(1j*np.array([[(x*(l+2) % 13)] for l in range(nl)]))
        return r, g, same, 'same'
    if kind == 'basis':
        return rotate(m, unitary(x, n)), g, same, 'same'
    if kind == 'shift':
        d = (x-32)/8 or 1.25
        r['A'] = m['A']+d*np.eye(n)
        r['mu'] = m['mu']+d
        if itype != 1:
            r['D'] = m['D']+d
        return r, g, (lambda I, J: (I, J+d*I)), 'other'
    if kind in FACTORS:
        s = FACTORS[kind][x % len(FACTORS[kind])]
        for k in ('A', 'U', 'mu', 'T', 'D', 'Tph', 'Dph'):
            if k in m:
                r[k] = s*m[k]
        for k in ('t', 'v'):
            if k in m:
                r[k] = np.sqrt(s)*m[k]
        return r, g, (lambda I, J: (s*I, s**2*J)), 'other'
    if kind == 'hole':
        if 'v' in m:
            return None
        # d_i = h_i+: normal ordering of the interaction gives one-particle terms
        r['A'], r['U'] = hole(m['A'], m['U'])
        r['t'] = -m['t'].conj()
        r['mu'] = -m['mu']
        r['D'] = -m['D'][:, ::-1]
        return r, g, (lambda I, J: (-I, J)), 'other'
    if kind == 'split':
        # lead x replaced by two leads carrying a rotation of (its channel, nothing)
        l = x % nl
        a = 0.3+0.1*(x % 9)
        for k in ('t', 'mu', 'T', 'D'):
            r[k] = np.concatenate([m[k], m[k][l:l+1]])
        r['t'][l] = m['t'][l]*np.cos(a)
        r['t'][nl] = m['t'][l]*np.sin(a)*np.exp(1j*x)
        g[l] = [l, nl]
        return r, g, same, 'same'
    if kind == 'mix':
        # two leads with equal parameters mixed by a unitary
        if nl < 2:
            return None
        l, k = x % nl, (x+1) % nl
        if not (m['mu'][l] == m['mu'][k] and m['T'][l] == m['T'][k] and (m['D'][l] == m['D'][k]).all()):
            return None
        W = unitary(x, 2)
        r['t'] = m['t'].copy()
        r['t'][[l, k]] = W @ m['t'][[l, k]]
        return r, 'mix %d %d' % (l, k), same, 'same'
    raise ValueError(kind)


def hole(A, U):
    """One- and two-particle parts after d_i -> h_i+ (constants dropped).
    U_mnkl d_m+ d_n+ d_k d_l -> U_mnkl h_m h_n h_k+ h_l+, reordered to h+ h+ h h."""
    n = A.shape[0]
    A2 = -A.T.copy()
    U2 = np.zeros_like(U)
    for m_, n_, k, l in itertools.product(range(n), repeat=4):
        u = U[m_, n_, k, l]
        if u == 0 or m_ == n_ or k == l:
            continue
        # h_m h_n h_k+ h_l+ = h_k+ h_l+ h_m h_n + (dnk dml - dmk dnl)
        #                     - dnk h_l+ h_m + dmk h_l+ h_n + dnl h_k+ h_m - dml h_k+ h_n
        U2[k, l, m_, n_] += u
        if n_ == k:
            A2[l, m_] -= u
        if m_ == k:
            A2[l, n_] += u
        if n_ == l:
            A2[k, m_] += u
        if m_ == l:
            A2[k, n_] -= u
    return A2, U2


# energy scales, and units of energy (eV for meV, K for eV, ...)
FACTORS = dict(scale=[0.25, 0.5, 2.0, 3.0, 10.0, 1.7], units=[1e-6, 1e-3, 1e-5, 1e3, 1e6])

KINDS = ['levels', 'leads', 'gauge', 'basis', 'shift', 'scale', 'units', 'hole', 'split', 'mix', 'indexing', 'mtype']


@st.composite
def case(draw, elph=False):
    spec = draw(gen.system(nmin=draw(st.sampled_from([1, 2, 2, 3])), nmax=3, lmax=3,
                           itypes=(1, 2, 2, 3, 3) if elph else (0, 1, 2, 2, 3, 3)))
    spec['k'] = draw(st.sampled_from(BASE))
    spec['py'] = draw(st.integers(0, 4)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    if elph:
        spec['ph'] = draw(gen.phonons(spec['n']))
    spec['tr'] = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 63)), min_size=1, max_size=3))
    seen = set()
    for q, (k, x) in enumerate(spec['tr']):
        if k in FACTORS and {'scale', 'units', 'shift'} & seen or k == 'shift' and {'scale', 'units'} & seen:
            # one change of units, and none of a shifted energy zero
            spec['tr'][q] = ('levels', x)
        seen.add(k)
    if any(k == 'mix' for k, _ in spec['tr']) and spec['nl'] > 1:
        spec['mu'] = [spec['mu'][0]]*2+spec['mu'][2:]
        spec['T'] = [spec['T'][0]]*2+spec['T'][2:]
        if not isinstance(spec['D'], (int, float)):
            spec['D'] = [spec['D'][0]]*2+spec['D'][2:]
        spec['tr'] = [('mix', 2*spec['nl']*x if k == 'mix' else x) if k == 'mix' else (k, x) for k, x in spec['tr']]
    return spec


def gaps(s):
    """Smallest distance of two levels of equal charge."""
    E, N = np.array(s.Ea), common.charges_of(s)
    d = np.abs(E[:, None]-E[None, :])[(N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)]
    return d.min(initial=np.inf)


def sector_pops(s):
    N = common.charges_of(s)
    p = np.array([s.get_phi0(b, b) for b in range(len(s.Ea))]).real
    return np.bincount(N, weights=p)


def sorted_levels(s):
    E, N = np.array(s.Ea), common.charges_of(s)
    return [np.sort(E[N == c]) for c in range(N.max()+1)]


def error_of(s, spec, unit=1.0):
    """Error bound of density matrix; inf when the case says nothing."""
    err = common.rel_error(s, spec['itype'], unit=unit)
    if spec['k'] == 'Pauli' or 'ph' in spec:
        g = gaps(s)/unit
        if g < 1e-4:
            return np.inf
        err *= 1+1e-1/g
    if 'ph' in spec:
        # the band of the baths is a step function of the level distance
        E = np.array(s.Ea)
        d = np.abs(E[:, None]-E[None, :])
        for lo, hi in s.baths.dlst_ph:
            if min(np.abs(d-lo)[~np.eye(len(E), dtype=bool)].min(initial=unit), np.abs(d-hi).min()) < 1e-6*unit and lo > 0:
                return np.inf
    return err


def check(ctx, spec):
    m = mats(spec)
    s = build(m, spec)
    s.make_kern_copy = True
    s.solve()
    if spec['itype'] == 0 and spec['k'] in ('Redfield', '1vN') and not ref.quadpack_ok_dot(common.dot_of(s)):
        ctx.skip('QUADPACK fails for an integral (known finding C16-dqawc)')
    err = error_of(s, spec)
    if not (s.success and err < 1e-4):
        ctx.skip('ill-conditioned')
    cur, ecur, heat = common.observables(s)
    pops, levels = sector_pops(s), sorted_levels(s)
    size = max(1, np.abs(s.phi0).max())
    spec2 = dict(spec)
    # groups of (leads of the original system, leads of the other one) with equal sums of currents
    r, g, f, spectrum = m, [([l], [l]) for l in range(spec['nl'])], [], 'same'
    fac, flip, over = 1.0, False, {}
    for kind, x in spec['tr']:
        if kind == 'indexing':
            spec2['indexing'] = 'Lin' if spec2['indexing'] == 'charge' else 'charge'
        elif kind == 'mtype':
            if any(np.abs(np.asarray(r[k]).imag).max(initial=0) for k in ('A', 'U', 't', 'v') if k in r):
                continue
            over = dict(mtype_qd=float, mtype_leads=float)
        else:
            if kind in FACTORS and 'ph' in spec and spec['ph']['dos'] in ('lin', 'gauss'):
                continue        # these spectral densities contain an energy scale
            out = transform(r, kind, x, spec['itype'])
            if out is None:
                continue
            if over and kind in ('gauge', 'basis', 'split', 'mix'):
                continue
            r, h, fn, sp = out
            f.append(fn)
            if isinstance(h, str):
                # only the sum of the currents of both leads is unchanged
                hit = [q for q in g if set(q[1]) & {int(z) for z in h.split()[1:]}]
                g = [q for q in g if q not in hit]+[(sum((q[0] for q in hit), []), sum((q[1] for q in hit), []))]
            else:
                g = [(q[0], sum((h[l] for l in q[1]), [])) for q in g]
            spectrum = 'other' if sp == 'other' else spectrum
            if kind == 'hole':
                flip = not flip
            if kind in FACTORS:
                fac *= FACTORS[kind][x % len(FACTORS[kind])]
        ctx.label(kind)
    u = build(r, spec2, **over)
    u.make_kern_copy = True
    u.solve()
    if spec['itype'] == 0 and spec['k'] in ('Redfield', '1vN') and not ref.quadpack_ok_dot(common.dot_of(u)):
        ctx.skip('QUADPACK fails for an integral (known finding C16-dqawc)')
    err2 = error_of(u, spec2, fac)
    ctx.require(bool(u.success) or not err2 < 1e-5, 'the equivalent system is reported as a failure')
    if not err2 < 1e-3:
        ctx.skip('ill-conditioned after the transformation')
    err = 20*(err+err2)+1e-12*size
    G, E = scales(s)
    E += np.abs(m['D']).max()*1e-3+abs(u.mulst).max()/fac
    quad = 2*common.quad_err(spec['itype']) if spec['k'] in ('Redfield', '1vN') else 0
    for fn in f:
        cur, ecur = fn(cur, ecur)
    got = [np.array([z[q[1]].sum() for q in g]) for z in common.observables(u)]
    cur, ecur, heat = [np.array([z[q[0]].sum() for q in g]) for z in (cur, ecur, heat)]
    tol = (err+quad*size)*4*G+1e-15
    etol = tol*E*4 + 1e-13*G*size*np.abs(m['D']).max()*4
    ctx.close(got[0]/fac, cur/fac, tol, 'particle currents')
    ctx.close(got[1]/fac**2, ecur/fac**2, etol, 'energy currents')
    # heat contains no energy zero, and holes carry the same heat
    ctx.close(got[2]/fac**2, heat, etol*2, 'heat currents')
    ctx.close(sector_pops(u)[::-1] if flip else sector_pops(u), pops, err*4, 'populations of the charge sectors')
    if spectrum == 'same':
        for a, b in zip(sorted_levels(u), levels):
            ctx.close(a, b, 1e-12*(1+np.abs(b).max()), 'spectrum')
    ctx.label(spec['k'], 'itype%d' % spec['itype'], 'py' if spec['py'] else 'compiled')
    if len(s.phi0) > s.si.npauli and np.abs(s.phi0[s.si.npauli:]).max() > 1e-6:
        ctx.label('coherences')
    ctx.nontrivial((np.abs(cur/fac).max() > 1e-9 or len(s.phi0) > s.si.npauli) and (pops > 1e-9).sum() >= 2)


# ---- spin indexings

@st.composite
def spin(draw):
    from . import c04
    sp = draw(c04.spinful(big=True))
    sp['k'] = draw(st.sampled_from(['Lindblad', 'Redfield', '1vN', 'Pauli']))
    sp['other'] = draw(st.sampled_from(['charge', 'Lin', 'sz', 'ssq']))
    if sp['h'] == 3:
        sp['k'] = 'Pauli'
        sp['indexing'], sp['other'] = 'sz', 'ssq' if sp['sym'] else 'charge'
        # degenerate multiplets are mixed in charge indexing
        if not sp['sym']:
            sp['B'] = sp['B'] or 0.5
    return sp


def check_spin(ctx, sp):
    from . import c04
    kw = dict(kerntype=('py' if sp['py'] else '')+sp['k'])
    a, b = sp['indexing'], sp['other']
    if not sp['sym'] and 'ssq' in (a, b):
        ctx.skip('ssq indexing needs the spin symmetry')
    if a == b:
        b = 'charge' if a != 'charge' else 'sz'
    s, u = c04.spin_build(sp, indexing=a, **kw), c04.spin_build(sp, indexing=b, **kw)
    for q in (s, u):
        q.make_kern_copy = True
        q.solve()
    if sp['itype'] == 0 and sp['k'] in ('Redfield', '1vN') and not (ref.quadpack_ok_dot(common.dot_of(s)) and ref.quadpack_ok_dot(common.dot_of(u))):
        ctx.skip('QUADPACK fails for an integral (known finding C16-dqawc)')
    if sp['k'] == 'Pauli':
        if {a, b} != {'charge', 'Lin'} or gaps(s) < 1e-4:
            lab = (common.sz_labels(s)[:, 1] if a in ('sz', 'ssq') else common.sz_labels(u)[:, 1])
            q = s if a in ('sz', 'ssq') else u
            E, N = np.array(q.Ea), common.charges_of(q)
            same = (N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)
            if {a, b} == {'sz', 'ssq'}:
                same &= lab[:, None] == lab[None, :]
            if np.abs(E[:, None]-E[None, :])[same].min(initial=1) < 1e-4:
                ctx.skip('degenerate levels in the Pauli approach')
    err, err2 = [common.rel_error(q, sp['itype']) for q in (s, u)]
    if not (s.success and err < 1e-4):
        ctx.skip('ill-conditioned')
    if not err2 < 1e-3:
        ctx.skip('ill-conditioned in the other indexing')
    ctx.require(bool(u.success), 'failure reported in indexing %s only' % b)
    size = max(1, np.abs(s.phi0).max())
    err = 20*(err+err2)+1e-12*size
    G, E = scales(s)
    quad = 2*common.quad_err(sp['itype']) if sp['k'] in ('Redfield', '1vN') else 0
    tol = (err+quad*size)*4*G+1e-15
    ctx.close(u.current, s.current, tol, 'particle currents in %s and %s' % (b, a))
    etol = tol*E*4+1e-13*G*size*np.abs(s.dlst).max()*4
    ctx.close(u.energy_current, s.energy_current, etol, 'energy currents in %s and %s' % (b, a))
    ctx.close(u.heat_current, s.heat_current, etol*2, 'heat currents in %s and %s' % (b, a))
    ctx.close(sector_pops(u), sector_pops(s), 4*err, 'populations of the charge sectors')
    for x, y in zip(sorted_levels(u), sorted_levels(s)):
        ctx.close(x, y, 1e-12*(1+np.abs(y).max()), 'spectrum')
    if a in ('sz', 'ssq') and b in ('sz', 'ssq'):
        def szpop(q):
            out = {}
            for i in range(len(q.Ea)):
                k = tuple(q.si.ind_qn[i][:2])
                out[k] = out.get(k, 0)+q.get_phi0(i, i).real
            return out
        x, y = szpop(s), szpop(u)
        ctx.require(set(x) == set(y), 'spin sectors')
        for k in x:
            ctx.close(y[k], x[k], 4*err, 'population of the sector %s' % (k,))
    ctx.label(sp['k'], '%s to %s' % (a, b), 'spin symmetry' if sp['sym'] else 'two spin species')
    ctx.nontrivial(np.abs(s.current).max() > 1e-9)


# ---- second-order approaches

@st.composite
def second(draw):
    k = draw(st.sampled_from(['2vN', 'RTD', 'RTD']))
    spec = draw(gen.system(nmin=draw(st.sampled_from([1, 2, 2] if k == '2vN' else [1, 2, 2, 2, 3])), nmax=2 if k == '2vN' else 3,
                           lmax=2 if k == '2vN' else 3, itypes=(1,), D=30.0 if k == '2vN' else 1e5, tmin=0.5,
                           equal_T=draw(st.booleans()), emax=2.0, umax=4.0, mu=2.0))
    spec['k'] = k
    spec['py'] = draw(st.integers(0, 7)) == 0 and spec['n'] < 3
    spec['indexing'] = draw(st.sampled_from(['charge', 'Lin'])) if k == '2vN' else 'charge'
    spec['niter'] = draw(st.integers(1, 2))
    spec['off'] = draw(st.booleans())
    kinds = ['levels', 'leads', 'gauge', 'scale', 'units', 'indexing', 'split', 'basis', 'shift', 'hole']
    if k == 'RTD':
        kinds = ['levels', 'leads', 'scale', 'units', 'units', 'gauge', 'shift', 'hole', 'split']
    elif spec['n'] > 1 and spec['niter'] > 1:
        # the 2vN iteration depends on the phases of the eigenstates (known finding C10-2vN-phases): these
        # re-descriptions change them, and are explored with the first iteration and a single level only
        kinds = [x for x in kinds if x not in ('basis', 'gauge')]
    spec['tr'] = [[draw(st.sampled_from(kinds)), draw(st.integers(0, 63))]]
    return spec


def run_second(ctx, s, spec):
    s.make_kern_copy = True
    if spec['k'] == '2vN':
        try:
            s.solve(niter=spec['niter'])
        except np.linalg.LinAlgError:
            ctx.skip('an uncoupled state in resonance with a grid point (singular)')
    else:
        s.off_diag_corrections = spec['off']
        s.appr.printed_warning_ImGamma = True
        s.solve()


def check_second(ctx, spec):
    m = mats(spec)
    kw = dict(kpnt=spec.get('kpnt', 40)) if spec['k'] == '2vN' else {}
    s = build(m, spec, **kw)
    run_second(ctx, s, spec)
    lo, hi = common.conditioning(s)
    if not (s.success and lo > 1e-6*hi):
        ctx.skip('ill-conditioned')
    kind, x = spec['tr'][0]
    spec2, fac = dict(spec), 1.0
    r, g, fn = m, [[l] for l in range(spec['nl'])], (lambda I, J: (I, J))
    if kind == 'indexing':
        spec2['indexing'] = 'Lin' if spec['indexing'] == 'charge' else 'charge'
    else:
        r, g, fn, _ = transform(m, kind, x, 1 if spec['k'] == 'RTD' else 2)
    if kind in FACTORS:
        fac = FACTORS[kind][x % len(FACTORS[kind])]
    u = build(r, spec2, **kw)
    run_second(ctx, u, spec2)
    lo2, hi2 = common.conditioning(u, fac)
    ctx.require(bool(u.success) or not lo2 > 1e-6*hi2, 'the equivalent system is reported as a failure')
    if not lo2 > 1e-8*hi2:
        ctx.skip('ill-conditioned after the transformation')
    cond = hi/lo+hi2/lo2
    if spec['k'] == '2vN':
        cond += sum(max(np.linalg.cond(q.appr.kern1k_inv).max(), 1) for q in (s, u))
    if not cond < 1e7:
        ctx.skip('ill-conditioned energy-resolved kernel')
    if spec['k'] == 'RTD' and spec['n'] > 1:
        # the coherences of close levels enter divided by the distance of the levels; degenerate levels have no
        # definite eigenstates, and this approach has no coherences between them
        if gaps(s) < 1e-4:
            ctx.skip('degenerate levels in the RTD approach')
        cond *= 1+1e-1/gaps(s)
    G = 2*np.pi*(np.abs(s.Tba)**2).sum()
    E = 1+np.abs(s.Ea).max()+np.abs(s.mulst).max()+(np.abs(u.Ea).max()+np.abs(u.mulst).max())/fac
    I, J = fn(np.array(s.current), np.array(s.energy_current))
    got = [np.array([z[q].sum() for q in g]) for z in (u.current, u.energy_current)]
    got, I, J = [got[0]/fac, got[1]/fac**2], I/fac, J/fac**2
    tol = (1e-13*cond+1e-13)*G*(1+np.abs(s.phi0).max())
    etol = tol*(E+np.abs(m['D']).max())
    grid = 0
    cplx = any(np.abs(np.asarray(q.Tba).imag).max() > 1e-14 for q in (s, u))
    ozaki = cplx or np.ptp(spec['T']) > 1e-9
    if spec['k'] == 'RTD':
        # amplitudes with complex products and unequal temperatures use the Ozaki expansion of the Fermi function
        # (measured: below 1e-7 in these units at the half bandwidth used here); otherwise divided differences of
        # the digamma function at almost equal energies lose digits (measured: below 1e-8)
        oz = (5e-7 if ozaki else 1e-7)*(1+cond*1e-3)*G**2/min(spec['T'])
        tol += oz
        etol += oz*E
    elif kind in ('shift', 'hole', 'scale', 'units'):
        # rounding decides whether the extended grid of the Hilbert transform has one point more
        tol += 1e-6*G*(1+cond*1e-3)
        etol += 1e-5*G*E*(1+cond*1e-3)
        grid = 1e-6*cond
    ctx.close(got[0], I, tol, 'particle currents')
    if not (spec['k'] == 'RTD' and cplx):
        ctx.close(got[1], J, etol, 'energy currents')
    ptol = 1e-13*cond+1e-12 + ((5e-7 if ozaki else 1e-7)*(1+cond*1e-3)*G/min(spec['T'])*cond if spec['k'] == 'RTD' else 0)
    ptol += grid
    a, b = sector_pops(s), sector_pops(u)
    if ptol < 0.1:
        ctx.close(b[::-1] if kind == 'hole' else b, a, ptol, 'populations of the charge sectors')
    ctx.label(spec['k'], kind, 'n=%d' % spec['n'], 'complex' if cplx else 'real', 'py' if spec['py'] else 'compiled')
    if spec['k'] == '2vN':
        ctx.label('niter=%d' % spec['niter'])
    ctx.nontrivial(np.abs(s.current).max() > 1e-9)


# ---- exactly degenerate orbitals coupled by phonons

@st.composite
def degenerate(draw):
    n = draw(st.sampled_from([2, 2, 3, 3]))
    spec = draw(gen.system(nmin=n, nmax=n, lmax=3, itypes=(1, 2, 2, 3, 3)))
    spec['group'] = draw(st.sampled_from([[0, 0, 0], [0, 0, 0], [0, 1, 1], [0, 0, 1], [0, 1, 0]]))[:n]
    e = [draw(gen.num(-3, 3, 8)) for _ in range(2)]
    u = [draw(gen.num(0, 6, 4)) for _ in range(2)]
    grp = spec['group']
    spec['hs'] = [[i, i, e[grp[i]], 0.0] for i in range(n)]
    spec['co'] = [[i, j, j, i, u[grp[i] != grp[j]], 0.0] for i, j in itertools.combinations(range(n), 2)]
    spec['k'] = draw(st.sampled_from(['1vN', 'Redfield', '1vN', 'Redfield', 'Lindblad']))
    spec['py'] = draw(st.integers(0, 4)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['ph'] = draw(gen.phonons(n))
    spec['ph']['dos'] = draw(st.sampled_from(['lin', 'lin', 'lin', 'gauss']))
    spec['ph']['D'] = [[0.0, hi] for _, hi in spec['ph']['D']]
    spec['x'] = draw(st.integers(0, 63))
    spec['noise'] = draw(st.sampled_from([0, 0, 1, 2]))
    return spec


def check_degenerate(ctx, spec):
    """The choice of the basis of degenerate orbitals does not matter, nor does their splitting by a tiny energy, and
    approaches which differ in the treatment of energy differences agree if there are none."""
    m, n, grp = mats(spec), spec['n'], np.array(spec['group'])
    s = build(m, spec)
    s.make_kern_copy = True
    s.funcp.suppress_err = True
    s.solve()
    err = common.rel_error(s, spec['itype'])
    if not (s.success and err < 1e-4):
        ctx.skip('ill-conditioned')
    E = np.array(s.Ea)
    d = np.abs(E[:, None]-E[None, :])
    t = max(spec['ph']['T'])
    if ((d > 1e-12) & (d < 1e-4)).any():
        ctx.skip('nearly degenerate levels')
    for lo, hi in s.baths.dlst_ph:
        if np.abs(d-hi).min() < 1e-6:
            ctx.skip('an excitation at the edge of a phonon band')
    r = dict(m)
    V = np.eye(n, dtype=complex)
    for g in set(spec['group']):
        i = np.flatnonzero(grp == g)
        V[np.ix_(i, i)] = unitary(spec['x']+64*g, len(i))
    r['t'] = m['t'] @ V.conj()
    r['v'] = np.array([V.conj().T @ v @ V for v in m['v']])
    if spec['noise']:
        r['A'] = m['A']+np.diag(1e-13*(np.arange(n) if spec['noise'] == 1 else -np.arange(n)))
    cases = [('another basis', build(r, spec), spec['k'])]
    if len(set(spec['group'])) == 1 and spec['itype'] in (2, 3):
        for k in ('1vN', 'Redfield', 'Lindblad'):
            if k != spec['k']:
                cases.append((k+' instead of '+spec['k'], build(m, dict(spec, k=k)), k))
    size = max(1, np.abs(s.phi0).max())
    G, Es = scales(s)
    for name, u, k in cases:
        u.make_kern_copy = True
        u.funcp.suppress_err = True
        u.solve()
        err2 = common.rel_error(u, spec['itype'])
        ctx.require(bool(u.success) or not err2 < 1e-5, name+': failure')
        if not err2 < 1e-3:
            continue
        e = 20*(err+err2)+1e-12*size
        if 'Lindblad' in (k, spec['k']) or spec['noise']:
            # absorption and emission at the floor eps_elph differ by this factor
            lo, _ = common.conditioning(s)
            e += 1e-6*2*np.pi*0.9*t*np.abs(s.Vbbp).max(initial=0)**2*n*4/lo*size
        quad = 2*common.quad_err(spec['itype']) if spec['k'] in ('Redfield', '1vN') else 0
        tol = (e+quad*size)*4*G+1e-15
        ctx.close(u.current, s.current, tol, name+': particle currents')
        ctx.close(u.energy_current, s.energy_current, tol*Es*4+1e-13*G*size*np.abs(m['D']).max()*4, name+': energy currents')
        ctx.close(sector_pops(u), sector_pops(s), 4*e, name+': populations of the charge sectors')
        ctx.label(name.split(' of ')[0])
    ctx.label(spec['k'], 'groups %s' % spec['group'], 'noise' if spec['noise'] else 'exact')
    ctx.nontrivial(np.abs(s.Vbbp).max(initial=0) > 0.02 and np.abs(s.current).max() > 1e-6)


SUBCHECKS = [
    Sub('first', case, check, 3000, 60000, 'compositions of up to three re-descriptions', shards=6, tshards=16),
    Sub('phonon', lambda: case(elph=True), check, 900, 16000, 'the same with phonon baths', shards=4, tshards=16),
    Sub('degenerate', degenerate, check_degenerate, 500, 8000,
        'degenerate orbitals coupled by phonons in another basis, tiny splittings, agreement of approaches', shards=4, tshards=16),
    Sub('spin', spin, check_spin, 1500, 24000, 'indexings of spin-conserving dots', shards=4, tshards=16),
    Sub('second', second, check_second, 500, 8000, 're-descriptions of systems in the 2vN and RTD approaches', shards=4, tshards=16),
]
