"""A system given by many-body data equals the one it was taken from."""

import numpy as np
from hypothesis import strategies as st

from .. import common, gen
from ..core import Sub
from .c08 import scales
from .c12 import fresh, model_of

RULE = ('non-trivial: the states are reordered, offset or restricted, and a current above 1e-9 or a coherence is compared')
ASSUMPTIONS = ['the energies, particle numbers and amplitudes are those the single-particle system reports',
               'the RTD approach additionally needs nsingle and tleads_array (set as its warning says)',
               'solve is called with qdq=False, as documented for many-body input']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']


@st.composite
def common_parts(draw, spec):
    nst = 2**spec['n']
    spec['perm'] = draw(st.permutations(range(nst)))
    spec['offset'] = draw(st.sampled_from([0, 0, 1, 3, -1, -5, 10]))
    spec['drop'] = draw(st.sampled_from([None, None, None, 'charge', 'states']))
    spec['x'] = draw(st.integers(0, 63))
    spec['forms'] = draw(st.integers(0, 7))
    spec['steps'] = draw(st.lists(st.tuples(st.sampled_from(['mu', 'T', 'k', 'again', 'rmstates', 'all', 'symq', 'rmcoh', 'dband']),
                                            st.integers(0, 63)), max_size=3))
    return spec


@st.composite
def first(draw, elph=False):
    spec = draw(gen.system(nmin=1, nmax=3, lmin=1, lmax=3, itypes=(1, 2, 2, 3)))
    spec['k'] = draw(st.sampled_from(['', '', 'py']))+draw(st.sampled_from(BASE))
    spec['ph'] = draw(gen.phonons(spec['n'])) if elph else None
    spec['herm'] = [True, False]
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['ks'] = BASE+['py'+k for k in BASE]
    spec['off'] = True
    return draw(common_parts(spec))


@st.composite
def second(draw):
    kind = draw(st.sampled_from(['2vN', 'RTD']))
    real = True if kind == 'RTD' else draw(st.booleans())
    spec = draw(gen.system(nmin=1, nmax=2, lmax=2, itypes=(1,), real=real, D=30.0 if kind == '2vN' else 100.0, tmin=0.5,
                           equal_T=kind == 'RTD'))
    spec['k'] = ('py' if draw(st.integers(0, 4)) == 0 else '')+kind
    spec['ph'] = None
    spec['herm'] = [True, False]
    spec['indexing'] = 'charge'
    spec['ks'] = ['2vN', '1vN', 'py2vN', 'Pauli'] + (['RTD', 'pyRTD'] if kind == 'RTD' else [])
    spec['off'] = draw(st.booleans())
    spec = draw(common_parts(spec))
    spec['steps'] = [x for x in spec['steps'] if x[0] not in ('rmcoh', 'dband') and not (kind == 'RTD' and x[0] == 'T')]
    return spec


def take(s, spec, order):
    """Builds the system from the many-body data of the states in the given order."""
    import qmeq
    Ea, Na = np.array(s.Ea)[order], common.charges_of(s)[order]+spec['offset']
    Tba = np.array(s.Tba)[:, order][:, :, order]
    nl = spec['nl']
    f = spec['forms']
    kw = dict(Ea=Ea.tolist() if f & 1 else Ea, Na=[int(x) for x in Na] if f & 2 else Na, Tba=Tba,
              mulst={l: s.mulst[l] for l in range(nl)}, tlst=list(s.tlst) if f & 4 else {l: s.tlst[l] for l in range(nl)},
              dband={l: tuple(s.dlst[l]) for l in range(nl)}, kerntype=s.kerntype, itype=s.itype)
    if common.base_kerntype(s.kerntype) in ('2vN', 'RTD'):
        kw['kpnt'] = 24
    if spec.get('ph'):
        ph = spec['ph']
        nb = ph['nb']
        kw.update(Vbbp=np.array(s.Vbbp)[:, order][:, :, order], tlst_ph={i: s.tlst_ph[i] for i in range(nb)},
                  dband_ph={i: tuple(s.dlst_ph[i]) for i in range(nb)},
                  bath_func=gen.bath_func(ph['dos'], nb, not s.kerntype.startswith('py')))
        u = qmeq.Builder.many_body_elph(**kw)
        u.itype_ph = s.itype_ph
        return u
    u = qmeq.Builder.many_body(**kw)
    u.nsingle = s.nsingle
    u.tleads_array = np.array(s.tleads_array)
    return u


def solve(s, spec, ctx):
    k = common.base_kerntype(s.kerntype)
    s.funcp.suppress_err = True
    kw = dict(qdq=False, rotateq=False)
    if k == '2vN':
        kw['niter'] = 2
    if k == 'RTD':
        s.off_diag_corrections = spec['off']
        s.appr.printed_warning_ImGamma = True
    try:
        s.solve(**kw)
    except np.linalg.LinAlgError:
        if k == '2vN':
            ctx.skip('an uncoupled state in resonance with a grid point (singular)')
        raise


def check(ctx, spec):
    s = fresh(spec, model_of(spec))
    if common.base_kerntype(spec['k']) in ('2vN', 'RTD'):
        s.kpnt = 24
    s.solve(masterq=False)
    N = common.charges_of(s)
    states = list(range(len(N)))
    if spec['drop'] == 'charge' and spec['n'] > 1:
        # one charge sector is absent (possibly in the middle)
        q = spec['x'] % (spec['n']+1)
        states = [b for b in states if N[b] != q]
    elif spec['drop'] == 'states':
        states = [b for b in states if b != spec['x'] % len(N)]
    if len(states) < len(N):
        st_ = [[b for b in s.si.chargelst[c] if b in states] for c in range(s.si.ncharge)]
        s.si.set_statesdm(st_)
        if spec.get('ph'):
            s.si_elph.set_statesdm(st_)
    order = [b for b in spec['perm'] if b in states]
    u = take(s, spec, order)
    ctx.label('drop %s' % spec['drop'], 'offset %d' % spec['offset'],
              'reordered' if order != sorted(order) else 'in order', spec['k'])
    cutE = None
    for step in [['first', 0]]+list(spec['steps']):
        kind, x = step
        if kind == 'mu':
            for q in (s, u):
                q.change(mulst={x % spec['nl']: (x-32)/16})
        elif kind == 'T':
            for q in (s, u):
                q.change(tlst={x % spec['nl']: 0.5+x/32})
        elif kind == 'dband':
            for q in (s, u):
                q.dband = 30.0+x
        elif kind == 'k':
            k = spec['ks'][x % len(spec['ks'])]
            if spec.get('ph'):
                f = gen.bath_func(spec['ph']['dos'], spec['ph']['nb'], not k.startswith('py'))
                s.bath_func, u.bath_func = f, f
            for q in (s, u):
                q.kerntype = k
                q.kpnt = 24
        elif kind == 'symq':
            for q in (s, u):
                q.symq = bool(x % 2)
        elif kind in ('rmstates', 'rmcoh', 'all'):
            if len(states) < len(N):
                continue
            E = np.sort(np.array(u.Ea))
            if kind == 'rmstates':
                cuts = [0.5*(a+b)-E[0] for a, b in zip(E[:-1], E[1:]) if b-a > 1e-4]
            else:
                d = np.unique(np.abs(E[:, None]-E[None, :]))
                cuts = [1e-9]+[0.5*(a+b) for a, b in zip(d[:-1], d[1:]) if b-a > 1e-4]
            if not cuts:
                continue
            for q in (s, u):
                if kind == 'all':
                    q.use_all_states()
                else:
                    getattr(q, 'remove_states' if kind == 'rmstates' else 'remove_coherences')(cuts[x % len(cuts)])
        ctx.label(kind)
        for q in (s, u):
            q.norm_row = 0
        s.make_kern_copy = True
        solve(s, spec, ctx)
        solve(u, spec, ctx)
        compare(ctx, s, u, order, spec, 'step %s: ' % (step,))
    ctx.nontrivial((order != list(range(len(N))) or spec['offset']) and
                   (np.abs(u.current).max(initial=0) > 1e-9 or len(u.phi0) > u.si.npauli))


def compare(ctx, s, u, order, spec, what):
    k = common.base_kerntype(s.kerntype)
    ctx.require(len(s.phi0) == len(u.phi0), what+'%d density-matrix elements instead of %d' % (len(u.phi0), len(s.phi0)))
    ctx.close(u.Ea, np.array(s.Ea)[order], 0, what+'energies')
    lo, hi = common.conditioning(s)
    tol = common.rel_error(s, s.itype, quad=0.0)*4+1e-13
    if k == '2vN':
        cond = hi/lo if lo > 0 else np.inf
        cond += np.linalg.cond(s.appr.kern1k_inv).max() if s.appr.kern1k_inv.size else 0
        tol = max(tol, 1e-12*cond)
    if k == 'RTD':
        E, N = np.array(u.Ea), common.charges_of(u)
        gap = np.abs(E[:, None]-E[None, :])[(N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)].min(initial=1)
        tol = np.inf if gap < 1e-6 else tol*(1+0.1/gap)
    if not tol < 1e-3 or not s.success:
        ctx.label('observables not compared')
        return
    ctx.require(bool(u.success), what+'failure with many-body data')
    size = max(1, np.abs(s.phi0).max())
    N = common.charges_of(s)
    sub = np.ix_(order, order)
    ctx.close(common.rho_matrix(u), common.rho_matrix(s, N)[sub], tol*size, what+'density matrix')
    G, E = scales(s)
    G += 1e-3
    ctx.close(u.current, s.current, tol*G*4*size, what+'currents')
    nan = np.isnan(s.energy_current)
    ctx.require((np.isnan(u.energy_current) == nan).all(), what+'energy currents defined')
    if not nan.any():
        etol = tol*G*4*E*4*size+1e-13*G*size*np.abs(s.dlst).max()
        ctx.close(u.energy_current, s.energy_current, etol, what+'energy currents')
        ctx.close(u.heat_current, s.heat_current, etol*2, what+'heat currents')
    if k in ('1vN', 'Redfield', '2vN'):
        p = common.phi1_matrix(s, N)[:, sub[0], sub[1]]
        ctx.close(common.phi1_matrix(u), p, tol*size*4*(1+np.sqrt(G)), what+'current amplitudes')


# ---- any many-body data

@st.composite
def data(draw):
    n = draw(st.integers(2, 7))
    nl = draw(st.integers(1, 3))
    d = dict(n=n, nl=nl, N=draw(st.lists(st.integers(-1, 3), min_size=n, max_size=n)),
             E=draw(st.lists(gen.num(-4, 4), min_size=n, max_size=n)))
    real = draw(st.booleans())
    T = []
    for l in range(nl):
        for c in range(n):
            for b in range(n):
                if d['N'][c] == d['N'][b]+1 and draw(st.integers(0, 9)) < 8:
                    T.append([l, c, b]+draw(gen.nzcplx(0.4, real=real)))
    d['tl'] = T
    d['mu'] = [draw(gen.num(-2, 2)) for _ in range(nl)]
    d['T'] = [draw(gen.num(0.25, 2)) for _ in range(nl)]
    d['D'] = draw(gen.band(nl))
    d['itype'] = draw(st.sampled_from([1, 2, 2, 3]))
    d['k'] = ('py' if draw(st.integers(0, 3)) == 0 else '')+draw(st.sampled_from(BASE))
    d['symq'] = draw(st.booleans())
    return d


def check_data(ctx, d):
    import qmeq
    from . import c04
    n, nl = d['n'], d['nl']
    T = np.zeros((nl, n, n), dtype=complex)
    for l, c, b, re, im in d['tl']:
        T[l, c, b] = complex(re, im)
        T[l, b, c] = complex(re, -im)
    band = gen.dlst(d)
    s = qmeq.Builder.many_body(Ea=d['E'], Na=d['N'], Tba=T, mulst=d['mu'], tlst=d['T'],
                               dband={l: tuple(band[l]) for l in range(nl)}, itype=d['itype'], kerntype=d['k'], symq=d['symq'])
    s.funcp.suppress_err = True
    s.solve(qdq=False, rotateq=False)
    N = np.array(d['N'])
    ctx.close(common.charges_of(s), N-N.min(), 0, 'particle numbers')
    ctx.close(s.Ea, d['E'], 0, 'energies')
    if not s.success:
        fo = ref_of(s, d)
        from .. import ref
        if ref.well_posed(fo):
            ctx.fail('a well-posed system is reported as a failure')
        ctx.skip('solve reports failure')
    c04.check_first_order(ctx, s, d['itype'])
    ctx.label(d['k'])


def ref_of(s, d):
    from .. import ref
    return ref.FirstOrder(common.dot_of(s), common.base_kerntype(d['k']), d['itype'])


SUBCHECKS = [
    Sub('data', data, check_data, 1500, 30000,
        'arbitrary energies, particle numbers and amplitudes against the dense master equation', shards=4, tshards=16),
    Sub('first_order', first, check, 1800, 40000,
        'first-order approaches; states in any order, particle numbers with offsets and gaps, later changes', shards=6,
        tshards=16),
    Sub('phonon', lambda: first(elph=True), check, 800, 16000, 'the same with phonon amplitudes', shards=4, tshards=16),
    Sub('second', second, check, 400, 6000, '2vN and RTD approaches', shards=6, tshards=16),
]
