"""Compiled and pure-Python implementations agree."""

import itertools

import numpy as np
from hypothesis import strategies as st

from .. import common, gen
from ..core import Sub

RULE = ('non-trivial: the kernel (or the function values) compared are non-zero and at least two density-matrix '
        'elements or two leads take part')
ASSUMPTIONS = ['kernels are compared element by element at 1e-10 of their largest element',
               'density matrices and currents are compared at 1e-13 times the measured condition number of the kernel; '
               'above 1e9 only kernels are compared']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']


@st.composite
def steps(draw, maxlen=3, elph=False):
    """Things that happen between two solves."""
    kinds = ['none', 'rmstates', 'rmcoh', 'all', 'mu', 'tl', 'symq', 'norm', 'itype', 'hs']
    if elph:
        kinds += ['tph', 'v']
    out = []
    for _ in range(draw(st.integers(0, maxlen))):
        out.append([draw(st.sampled_from(kinds)), draw(st.integers(0, 63))])
    return out


def apply_step(s, step, spec):
    """Returns False when the step does not apply."""
    kind, x = step
    u = spec.get('unit', 1)
    if kind == 'rmstates':
        E = np.sort(np.array(s.Ea))
        cuts = [0.5*(a+b)-E[0] for a, b in zip(E[:-1], E[1:]) if b-a > 1e-4*u]
        if not cuts:
            return False
        s.remove_states(cuts[x % len(cuts)])
        return True
    if kind == 'rmcoh':
        E = np.array(s.Ea)
        d = np.unique(np.abs(E[:, None]-E[None, :]))
        cuts = [0.5*(a+b) for a, b in zip(d[:-1], d[1:]) if b-a > 1e-4*u]
        if not cuts:
            return False
        s.remove_coherences(cuts[x % len(cuts)])
        return True
    if kind == 'all':
        s.use_all_states()
    elif kind == 'mu':
        s.change(mulst={x % spec['nl']: (x-32)/16*u})
    elif kind == 'tl':
        l, i = [(l, i) for l, i, _, _ in spec['tl']][x % len(spec['tl'])]
        s.change(tleads={(l, i): ((x-31)/80+(0.1j*(x % 3) if not spec.get('real') else 0))*u**0.5})
    elif kind == 'hs':
        s.change(hsingle={(x % spec['n'], x % spec['n']): (x-31)/16*u})
    elif kind == 'symq':
        s.symq = bool(x % 2)
    elif kind == 'norm':
        s.norm_row = x % max(1, sum(len(z) for z in s.si.statesdm[:s.si.ncharge])) if s.si.indexing != 'ssq' else 0
    elif kind == 'itype':
        s.itype = [1, 2, 3][x % 3]
    elif kind == 'tph':
        s.change(tlst_ph={0: 0.25+x/32})
    elif kind == 'v':
        s.change(velph={(0, 0, x % spec['n']): (x-31)/100})
    return True


def cond_of(kern):
    """Condition number of the kernel with one equation replaced by the normalisation, largest over rescalings."""
    if not np.isfinite(kern).all():
        return np.inf
    return np.linalg.cond(kern)


def full_kernel(s):
    """Kernel rows that are equations (without the normalisation row)."""
    k = np.array(s.kern)
    if s.symq:
        keep = [i for i in range(k.shape[0]) if i != s.norm_row]
        return k[keep]
    return k[:-1]


def with_norm(s):
    """The matrix that was solved: equations plus normalisation row, from the Python system."""
    k = np.array(s.kern)
    if s.symq:
        k[s.norm_row] = s.appr.norm_vec
    return k


def compare(ctx, c, p, what):
    """Compiled system c against Python system p, both solved."""
    ctx.close(c.Ea, p.Ea, 1e-11*(1+np.abs(p.Ea).max()), what+'energies')
    ctx.close(c.Tba, p.Tba, 1e-11, what+'tunnelling amplitudes')
    kc, kp = full_kernel(c), full_kernel(p)
    scale = np.abs(kp).max(initial=0)
    if not np.isfinite(kp).all():
        ctx.require(not np.isfinite(kc).all(), what+'compiled kernel finite, Python kernel not')
        ctx.skip('kernel not finite')
    ctx.close(kc, kp, 1e-10*scale, what+'kernel')
    cond = cond_of(with_norm(p))
    # rounding of the kernel relative to its scale
    if not cond < 1e9:
        ctx.label('ill-conditioned')
        return scale
    ctx.require(bool(c.success) and bool(p.success), what+'success flags %s, %s' % (c.success, p.success))
    tol = 1e-12*cond+1e-12
    size = max(1, np.abs(p.phi0).max())
    ctx.close(c.phi0, p.phi0, tol*size, what+'density matrix')
    G = 2*np.pi*(np.abs(p.Tba)**2).sum()+1e-3
    if hasattr(p, 'Vbbp'):
        G += 1e-12*scale
    etol = tol*size*G*20
    ctx.close(c.current, p.current, etol, what+'currents')
    emax = 1+np.abs(p.Ea).max()-np.min(p.Ea)+np.abs(p.mulst).max()+np.abs(p.dlst).max()
    ctx.close(c.energy_current, p.energy_current, etol*emax, what+'energy currents')
    ctx.close(c.heat_current, p.heat_current, etol*emax, what+'heat currents')
    ctx.require((c.phi1 is None) == (p.phi1 is None), what+'one of the current amplitudes is missing')
    if p.phi1 is not None:
        ctx.close(c.phi1, p.phi1, etol/np.sqrt(G)*4+etol, what+'current amplitudes')
    n = len(p.Ea)
    for b, bp in ((0, 0), (n-1, n-1), (0, n-1), (n//2, n//2-1), (n//2-1, n//2)):
        ctx.close(c.get_phi0(b, bp), p.get_phi0(b, bp), tol*size, what+'get_phi0')
    return scale


@st.composite
def first_order(draw):
    spec = draw(gen.system(nmax=3))
    spec['k'] = draw(st.sampled_from(BASE))
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['symq'] = draw(st.sampled_from([True, True, False]))
    spec['lsqr'] = draw(st.booleans())
    spec['nrow'] = draw(st.integers(0, 7))
    spec['steps'] = draw(steps())
    return spec


def pair(spec, make, **kw):
    return make(spec['k'], **kw), make('py'+spec['k'], **kw)


def run_history(ctx, c, p, spec, solve=lambda s: s.solve()):
    scale = 0
    for s in (c, p):
        s.make_kern_copy = True
        solve(s)
    scale = max(scale, compare(ctx, c, p, 'first solve: '))
    for step in spec['steps']:
        done = [apply_step(s, step, spec) for s in (c, p)]
        if not all(done):
            continue
        if step[0] == 'rmcoh' and spec['k'] == 'Pauli':
            ctx.label('coherences removed in Pauli')
        np_ = p.si.npauli
        for s in (c, p):
            if not 0 <= s.norm_row < np_:
                s.norm_row = 0
            solve(s)
        ctx.label('step '+step[0])
        scale = max(scale, compare(ctx, c, p, 'after %s: ' % (step,)))
    return scale


def check_first_order(ctx, spec):
    nst = 2**spec['n']
    kw = dict(indexing=spec['indexing'], symq=spec['symq'], norm_row=spec['nrow'] % nst,
              solmethod='lsqr' if spec['lsqr'] else None)
    c, p = pair(spec, lambda k, **kw: gen.build(spec, kerntype=k, **kw), **kw)
    scale = run_history(ctx, c, p, spec)
    ctx.label(spec['k'], 'itype%d' % spec['itype'], 'symq' if spec['symq'] else 'all equations',
              'lsqr' if spec['lsqr'] else 'solve')
    ctx.nontrivial(scale > 0 and len(p.phi0) >= 2)


@st.composite
def spin(draw):
    from . import c04
    sp = draw(c04.spinful(big=True))
    sp['nl'] = 2*sp['nlh']
    sp['n'] = 2*sp['h']
    # steps that keep the spin symmetry
    sp['steps'] = [x for x in draw(steps()) if x[0] in ('none', 'rmstates', 'rmcoh', 'all', 'symq', 'norm', 'itype')]
    if sp['indexing'] == 'ssq':
        sp['steps'] = [x for x in sp['steps'] if x[0] not in ('rmstates',)]
    sp['symq'] = draw(st.booleans())
    return sp


def check_spin(ctx, sp):
    from . import c04
    c, p = pair(sp, lambda k: c04.spin_build(sp, kerntype=k, indexing=sp['indexing'], symq=sp['symq']))
    scale = run_history(ctx, c, p, sp)
    ctx.label(sp['k'], sp['indexing'])
    ctx.nontrivial(scale > 0)


@st.composite
def phonon(draw):
    spec = draw(gen.system(nmin=1, nmax=3, lmax=2, itypes=(1, 2, 3)))
    spec['ph'] = draw(gen.phonons(spec['n']))
    spec['ph']['itype'] = draw(st.sampled_from([2, 2, 2, 0]))
    if spec['ph']['itype'] == 0:
        spec['ph']['D'] = [[max(d[0], 0.25), d[1]] for d in spec['ph']['D']]
    spec['k'] = draw(st.sampled_from(BASE))
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['symq'] = draw(st.sampled_from([True, True, False]))
    spec['nrow'] = draw(st.integers(0, 7))
    spec['steps'] = draw(steps(elph=True))
    return spec


def check_phonon(ctx, spec):
    kw = dict(indexing=spec['indexing'], symq=spec['symq'], norm_row=spec['nrow'] % 2**spec['n'])
    c, p = pair(spec, lambda k, **kw: gen.build_elph(spec, spec['ph'], kerntype=k, **kw), **kw)
    scale = run_history(ctx, c, p, spec)
    ctx.close(c.Vbbp, p.Vbbp, 1e-11, 'phonon amplitudes')
    ctx.label(spec['k'], 'dos %s' % spec['ph']['dos'], 'itype_ph%d' % spec['ph']['itype'])
    ctx.nontrivial(scale > 0 and len(p.phi0) >= 2 and len(spec['ph']['v']) > 0)


# ---- matrix-free

@st.composite
def mfree(draw):
    spec = draw(gen.system(nmin=1, nmax=3, lmax=2, itypes=(1, 2, 3)))
    spec['k'] = draw(st.sampled_from(BASE))
    spec['indexing'] = draw(st.sampled_from(['charge', 'Lin']))
    spec['elph'] = draw(gen.phonons(spec['n'])) if draw(st.integers(0, 2)) == 0 else None
    spec['vec'] = draw(st.lists(st.integers(-8, 8), min_size=3, max_size=7))
    spec['nrow'] = draw(st.integers(0, 7))
    spec['rm'] = draw(st.sampled_from([None, ['rmstates', 1], ['rmcoh', 2], ['rmcoh', 0]]))
    return spec


def check_mfree(ctx, spec):
    """The right-hand side used by the matrix-free solution is the same function."""
    kw = dict(indexing=spec['indexing'], mfreeq=True, norm_row=spec['nrow'] % 2**spec['n'])
    if spec['elph']:
        c, p = pair(spec, lambda k, **kw: gen.build_elph(spec, spec['elph'], kerntype=k, **kw), **kw)
    else:
        c, p = pair(spec, lambda k, **kw: gen.build(spec, kerntype=k, **kw), **kw)
    for s in (c, p):
        s.solve(masterq=False)
        if spec['rm']:
            apply_step(s, spec['rm'], spec)
            if s.norm_row >= s.si.npauli:
                s.norm_row = 0
        s.funcp.suppress_err = s.funcp.suppress_wrn[0] = True
        s.solve(currentq=False)
    size = len(p.phi0)
    ctx.require(len(c.phi0) == size, 'lengths of phi0: %d, %d' % (len(c.phi0), size))
    for shift in range(2):
        vec = np.array([spec['vec'][(i*(shift+1)+shift) % len(spec['vec'])]/8 for i in range(size)])
        fc = np.array(c.appr.generate_vec(vec.copy()))
        fp = np.array(p.appr.generate_vec(vec.copy()))
        scale = np.abs(fp).max()
        big = 1+2*np.pi*(np.abs(p.Tba)**2).sum()*20+np.abs(p.Ea).max()
        if spec['elph']:
            big += (np.abs(p.Vbbp)**2).sum()*1e7*2*np.pi
        ctx.close(fc, fp, 1e-13*big*(1+np.abs(vec).sum()), 'matrix-free right-hand side')
        ctx.nontrivial(scale > 1e-6 and size >= 2)
    ctx.label(spec['k'], 'phonons' if spec['elph'] else 'no phonons', 'removal %s' % spec['rm'])


# ---- RTD

@st.composite
def rtd(draw):
    spec = draw(gen.system(nmin=1, nmax=draw(st.sampled_from([2, 2, 2, 3])), lmax=draw(st.sampled_from([2, 2, 3])), itypes=(1,), D=draw(gen.num(60, 200, 1)), tmin=0.5,
                           equal_T=draw(st.integers(0, 2)) > 0))
    spec['k'] = 'RTD'
    if spec['n'] == 2 and draw(st.integers(0, 3)) == 0:
        # almost degenerate orbitals: the integrals switch to their limits
        spec['hs'] = [[0, 0, spec['hs'][0][2], 0.0], [1, 1, spec['hs'][0][2]+2.0**-draw(st.integers(6, 15)), 0.0]]
        spec['close'] = True
    if spec['nl'] == 2 and draw(st.integers(0, 4)) == 0:
        # almost equal temperatures
        spec['T'] = [spec['T'][0], spec['T'][0]*(1+2.0**-draw(st.integers(8, 40)))]
        spec['closeT'] = True
    spec['unit'] = draw(st.sampled_from([1, 1, 1, 1e-6, 1e-3, 1e6]))
    if spec['unit'] != 1:
        s, r = spec['unit'], spec['unit']**0.5
        for key, f in (('hs', s), ('co', s), ('tl', r)):
            spec[key] = [x[:-2]+[x[-2]*f, x[-1]*f] for x in spec[key]]
        for key in ('mu', 'T'):
            spec[key] = [x*s for x in spec[key]]
        spec['D'] *= s
    spec['off'] = draw(st.sampled_from([True, True, False]))
    spec['symq'] = draw(st.sampled_from([True, True, False]))
    spec['nrow'] = draw(st.integers(0, 3))
    spec['steps'] = [x for x in draw(steps(2)) if x[0] not in ('itype',)]
    return spec


def rtd_noise(*systems):
    """How much the kernels change when the temperatures and potentials change in their last digits: the integrals
    of (almost) degenerate states are differences of large terms."""
    noise = 0
    for s in systems:
        T, mu = {l: float(x) for l, x in enumerate(s.tlst)}, {l: float(x) for l, x in enumerate(s.mulst)}
        k0 = full_kernel(s)
        for f, g in ((1+1e-14, 1), (1-1e-14, 1), (1+3e-14, 1-1e-14), (1-2e-14, 1+1e-14), (1+5e-15, 1)):
            s.change(tlst={l: x*f for l, x in T.items()}, mulst={l: x*g for l, x in mu.items()})
            s.solve()
            d = np.abs(full_kernel(s)-k0)
            noise = max(noise, np.where(np.isfinite(d), d, 0).max(initial=0))
        s.change(tlst=T, mulst=mu)
        s.solve()
    return noise


def check_rtd(ctx, spec):
    c, p = pair(spec, lambda k, **kw: gen.build(spec, kerntype=k, **kw), symq=spec['symq'],
                norm_row=spec['nrow'] % 2**spec['n'])
    for s in (c, p):
        s.off_diag_corrections = spec['off']
        s.appr.printed_warning_ImGamma = True
    scale, unit = 0, spec.get('unit', 1)
    for i, step in enumerate([['none', 0]]+spec['steps']):
        done = [apply_step(s, step, spec) for s in (c, p)]
        if not all(done):
            continue
        for s in (c, p):
            if s.norm_row >= s.si.npauli:
                s.norm_row = 0
            s.make_kern_copy = True
            s.solve()
        what = 'solve %d (%s): ' % (i, step)
        kc, kp = full_kernel(c), full_kernel(p)
        scale = np.abs(kp).max(initial=0)
        if not np.isfinite(kp).all():
            ctx.skip('kernel not finite')
        if not np.abs(kc-kp).max(initial=0) < 1e-8*scale:
            ctx.close(kc, kp, 1e-8*scale+20*rtd_noise(c, p), what+'kernel')
            ctx.label('noisy integrals')
        rel = 1e-9+4*np.abs(kc-kp).max(initial=0)/max(scale, 1e-300)
        kn = with_norm(p)
        rows = [i for i in range(kn.shape[0]) if i != p.norm_row] if p.symq else slice(0, -1)
        kn[rows] /= unit
        cond = cond_of(kn)
        if not cond < 1e6:
            ctx.label('ill-conditioned')
            continue
        ctx.require(bool(c.success) and bool(p.success), what+'success flags %s %s' % (c.success, p.success))
        size = max(1, np.abs(p.phi0).max())
        tol = rel*cond*size
        ctx.close(c.phi0, p.phi0, tol, what+'density matrix')
        nc, npy = np.isnan(c.energy_current), np.isnan(p.energy_current)
        ctx.require((nc == npy).all(), what+'energy current defined in one implementation only')
        ctx.close(c.current, p.current, tol*(unit+scale)*10, what+'currents')
        if not nc.any():
            emax = unit+np.abs(p.Ea).max()-min(p.Ea)+np.abs(p.mulst).max()
            ctx.close(c.energy_current, p.energy_current, tol*(unit+scale)*10*emax, what+'energy currents')
            ctx.close(c.heat_current, p.heat_current, tol*(unit+scale)*10*emax, what+'heat currents')
            ctx.label('energy currents')
        ctx.label('step '+step[0])
    ctx.label('off-diagonal' if spec['off'] else 'diagonal', '%d levels' % spec['n'],
              'close levels' if spec.get('close') else 'levels apart', 'unit %g' % spec.get('unit', 1),
              'almost equal T' if spec.get('closeT') else 'equal T' if len(set(spec['T'])) == 1 else 'unequal T')
    ctx.nontrivial(scale > 0)


# ---- 2vN

@st.composite
def two(draw):
    nmax = draw(st.sampled_from([2, 2, 2, 3]))
    spec = draw(gen.system(nmin=1, nmax=nmax, lmin=1, lmax=2, itypes=(0,), D=draw(gen.num(10, 30, 1)), tmin=0.5, mu=1.5,
                           emax=2.0, umax=4.0))
    spec['k'] = '2vN'
    spec['kpnt'] = draw(st.sampled_from([16, 24, 33] if spec['n'] < 3 else [12, 16]))
    spec['niter'] = draw(st.integers(1, 3))
    spec['more'] = draw(st.integers(0, 2))
    spec['indexing'] = draw(st.sampled_from(['charge', 'Lin']))
    spec['symq'] = draw(st.sampled_from([True, True, False]))
    spec['steps'] = [x for x in draw(steps(1)) if x[0] in ('rmstates', 'mu', 'tl', 'hs', 'all')]
    return spec


def check_two(ctx, spec):
    c, p = pair(spec, lambda k, **kw: gen.build(spec, kerntype=k, **kw), kpnt=spec['kpnt'],
                indexing=spec['indexing'], symq=spec['symq'])

    def cmp(what):
        ctx.require(c.niter == p.niter and len(c.iters) == len(p.iters), what+'iteration numbers')
        k = with_norm(p)
        cond = cond_of(k)
        if not cond < 1e8:
            ctx.skip('ill-conditioned')
        ctx.require(bool(c.success) and bool(p.success), what+'success flags')
        grow = max(1, np.abs(p.appr.phi1k).max(initial=0))
        for i, (a, b) in enumerate(zip(c.iters, p.iters)):
            size = max(1, np.abs(b.phi0).max())
            tol = 1e-11*cond*size*grow + 1e-12
            ctx.close(a.phi0, b.phi0, tol, what+'density matrix of iteration %d' % i)
            sc = 1+np.abs(b.current).max(initial=0)+2*np.pi*(np.abs(p.Tba)**2).sum()
            ctx.close(a.phi1, b.phi1, tol*sc*10, what+'current amplitudes of iteration %d' % i)
            ctx.close(a.current, b.current, tol*sc*10, what+'currents of iteration %d' % i)
            ctx.close(a.energy_current, b.energy_current, tol*sc*1e3, what+'energy currents of iteration %d' % i)
            ctx.close(a.heat_current, b.heat_current, tol*sc*1e3, what+'heat currents of iteration %d' % i)
        ctx.close(c.phi0, p.phi0, 1e-11*cond*max(1, np.abs(p.phi0).max())*grow + 1e-12, what+'density matrix')
        for b, bp in itertools.combinations_with_replacement(range(len(p.Ea)), 2):
            ctx.close(c.get_phi0(b, bp), p.get_phi0(b, bp), 1e-11*cond*grow*max(1, np.abs(p.phi0).max())+1e-12,
                      what+'get_phi0')
    try:
        p.solve(niter=spec['niter'])
    except np.linalg.LinAlgError:
        ctx.skip('an uncoupled state in resonance with a grid point (singular)')
    c.solve(niter=spec['niter'])
    cmp('first solve: ')
    if spec['more']:
        for s in (c, p):
            s.solve(qdq=False, restartq=False, niter=spec['more'])
        cmp('continued: ')
    for step in spec['steps']:
        if all([apply_step(s, step, spec) for s in (c, p)]):
            for s in (c, p):
                s.solve(niter=1)
            cmp('after %s: ' % step)
            ctx.label('step '+step[0])
    ctx.label('%d levels' % spec['n'], spec['indexing'], 'symq' if spec['symq'] else 'all equations')
    ctx.nontrivial(np.abs(p.phi1).max(initial=0) > 1e-9)


# ---- special functions

@st.composite
def functions(draw):
    return dict(f=draw(st.sampled_from(['fermi', 'dfermi', 'phi', 'bose', 'pauli', '1vN', 'digamma', 'polygamma',
                                        'D', 'X', 'ozaki', 'elph_pauli', 'elph_1vN'])),
                x=[draw(gen.num(-20, 20)) for _ in range(4)], scale=draw(st.sampled_from([1, 1, 1e-3, 1e2])),
                T=[draw(gen.num(0.25, 3)) for _ in range(2)], D=draw(gen.num(30, 300, 1)),
                D2=draw(gen.num(30, 300, 1)), i=draw(st.integers(0, 15)))


def check_functions(ctx, case):
    import qmeq.specfunc.specfunc as p
    import qmeq.specfunc.c_specfunc as c
    f, i = case['f'], case['i']
    x = [v*case['scale'] for v in case['x']]
    T, D, D2 = case['T'], case['D'], case['D2']
    ctx.label(f)
    ctx.nontrivial()

    def eq(a, b, what, rel=1e-12, abs_=1e-13):
        b = np.asarray(b)
        ctx.close(a, b, rel*np.abs(b).max(initial=0)+abs_, what)
    if f == 'fermi':
        eq(c.c_fermi_func(x[0]), p.fermi_func(x[0]), 'fermi_func', abs_=0)
    elif f == 'dfermi':
        s = 1 if i % 2 else -1
        eq(c.c_diff_fermi(x[0]*(-1 if s*x[0] < -300 else 1), s), p.diff_fermi(x[0]*(-1 if s*x[0] < -300 else 1), s),
           'diff_fermi')
    elif f == 'phi':
        a = x[0] if case['scale'] < 10 else x[0]/10
        s = 1 if i % 2 else -1
        eq(c.c_phi(a, D, -D2, s), p.phi(a, D, -D2, s), 'phi')
        eq(c.c_delta_phi(a, x[1], D, -D2, s), p.delta_phi(a, x[1], D, -D2, s), 'delta_phi', abs_=1e-12)
        eq(c.c_diff_phi(a, s), p.diff_phi(a, s), 'diff_phi')
        eq(c.c_diff2_phi(a, s), p.diff2_phi(a, s), 'diff2_phi')
    elif f == 'bose':
        if x[0] == 0:
            ctx.skip('pole of the Bose function')
        s = 1 if i % 2 else -1
        eq(c.c_bose(x[0], s), p.bose(x[0], s), 'bose')
    elif f == 'pauli':
        args = (x[0], x[1], T[0], -D, D2, i % 4)
        if i % 4 == 1 or min(abs(x[0]+D), abs(x[0]-D2)) > 1e-3:
            eq(c.c_func_pauli(*args), p.func_pauli(*args), 'func_pauli')
    elif f == '1vN':
        if min(abs(x[0]+D), abs(x[0]-D2)) < 1e-3 or case['scale'] > 10 and i % 4 == 0:
            ctx.skip('band edge')
        args = (x[0], x[1], T[0], -D, D2, i % 4, 10000)
        eq(c.c_func_1vN(*args), p.func_1vN(*args), 'func_1vN', rel=1e-10)
    elif f == 'digamma':
        z = complex(abs(x[0])+0.5, x[1])
        eq(c.c_digamma(z), p.digamma(z), 'digamma', rel=1e-9, abs_=1e-9)
    elif f == 'polygamma':
        z = complex(abs(x[0])+0.5, x[1])
        K = i % 5
        eq(c.c_polygamma(z, K), p.polygamma(z, K), 'polygamma', rel=1e-9, abs_=1e-11)
    elif f in ('D', 'X'):
        lam = [v/8 for v in case['x']]
        same = T[0] if i & 4 else T[1]
        BW = 100.0*max(abs(v) for v in lam)+D
        p1, p2 = (1 if i & 1 else -1), (1 if i & 2 else -1)
        oz = p.BW_Ozaki(BW)
        fun = (p.integralD, c.c_integralD) if f == 'D' else (p.integralX, c.c_integralX)
        args = (p1, p2, lam[0], lam[1], lam[2], T[0], same, lam[3], lam[3] if i & 8 else 0.25, BW, oz, False)
        pa = fun[0](*args)
        ca = fun[1](*args)
        eq(ca, pa, 'integral'+f, rel=1e-6, abs_=1e-8/min(T)**2)
        ctx.label('equal T' if same == T[0] else 'unequal T')
    elif f == 'ozaki':
        a, b = c.c_BW_Ozaki(D*T[0]), p.BW_Ozaki(D*T[0])
        eq(np.array(a), np.array(b), 'Ozaki poles and residues', rel=1e-10)
    else:
        check_elph_functions(ctx, case, x)


def check_elph_functions(ctx, case, x):
    import qmeq.specfunc.specfunc_elph as p
    import qmeq.specfunc.c_specfunc_elph as c
    T = np.array(case['T'])
    dl = np.array([[0.25, 10.0], [0.5, case['D']]])
    kind = [None, 'lin', 'gauss', 'const'][case['i'] % 4]
    fp, fc = gen.bath_func(kind, 2, False), gen.bath_func(kind, 2, True)
    if case['f'] == 'elph_1vN':
        ity = 2 if case['i'] & 8 else 0
        a = c.Func1vNElPh(T, dl, ity, 10000, fc, 1e-6)
        b = p.Func1vNElPh(T, dl, ity, 10000, fp, 1e-6)
        for l in range(2):
            if min(abs(abs(x[l])-dl[l])) < 1e-3:
                ctx.skip('band edge')
            a.eval(x[l], l), b.eval(x[l], l)
            if not hasattr(a, 'val0'):
                ctx.skip('values of the compiled class are not visible')
            ctx.close([a.val0, a.val1], [b.val0, b.val1], 1e-9*(1+abs(b.val0)+abs(b.val1)), 'Func1vNElPh')
    else:
        a = c.FuncPauliElPh(T, dl, fc, 1e-6)
        b = p.FuncPauliElPh(T, dl, fp, 1e-6)
        for l in range(2):
            a.eval(x[l], l), b.eval(x[l], l)
            if not hasattr(a, 'val'):
                ctx.skip('values of the compiled class are not visible')
            ctx.close(a.val, b.val, 1e-10*(1+abs(b.val)), 'FuncPauliElPh')


SUBCHECKS = [
    Sub('first_order', first_order, check_first_order, 1600, 30000,
        'random dots and settings; kernels, solutions and currents of both implementations after a history of removals '
        'and changes', shards=5, tshards=16),
    Sub('spin', spin, check_spin, 500, 8000, 'spin-conserving dots in sz/ssq/charge/Lin indexing', shards=4, tshards=16),
    Sub('phonon', phonon, check_phonon, 800, 16000, 'electron-phonon builders with 1-2 baths', shards=4, tshards=16),
    Sub('mfree', mfree, check_mfree, 400, 8000, 'right-hand sides of the matrix-free solution', shards=2, tshards=8),
    Sub('rtd', rtd, check_rtd, 1500, 20000, 'second-order RTD approach', shards=4, tshards=16),
    Sub('rtd_threads', rtd, check_rtd, 300, 3000, 'RTD approach with four OpenMP threads', shards=2, tshards=4, threads=4),
    Sub('two', two, check_two, 320, 3000, '2vN approach, iteration by iteration', shards=4, tshards=16),
    Sub('functions', functions, check_functions, 3000, 40000, 'special functions provided by both worlds', shards=2,
        tshards=8),
]
