"""A reconfigured system equals one built in that configuration; repeated and partial solves change nothing."""

import numpy as np
from hypothesis import strategies as st

from .. import common, gen
from ..core import Sub
from .c08 import scales
from .c12 import fresh, model_of

RULE = ('non-trivial: the configuration changed after a solve, and the final system has a current above 1e-9 or '
        'coherences')
ASSUMPTIONS = ['the oracle is a new system built with the final settings',
               'observables are compared at rounding error (matrix-free: residual tolerance 5e-5) over the smallest '
               'singular value of the kernel']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']
SECOND = ['2vN', 'RTD']
NITER = 2


def base(k):
    return common.base_kerntype(k)


@st.composite
def ops(draw, kinds, ks, maxlen=9):
    out = [['solve']] if draw(st.integers(0, 3)) else []
    for _ in range(draw(st.integers(2, maxlen))):
        kind = draw(st.sampled_from(kinds))
        if kind == 'k':
            out.append([kind, draw(st.sampled_from(ks)), draw(st.booleans())])
        elif kind == 'solve' or kind == 'partial':
            out.append([kind, draw(st.integers(0, 5))])
        else:
            out.append([kind, draw(st.integers(0, 63))])
    return out


KINDS = ['k', 'k', 'k', 'symq', 'norm', 'solm', 'mfree', 'itype', 'phi0', 'solve', 'solve', 'solve', 'partial', 'partial',
         'mu', 'T', 'dband', 'off']


@st.composite
def switching(draw, elph=False):
    spec = draw(gen.system(nmax=3, lmax=3, itypes=(1, 2, 2, 3)))
    spec['k'] = draw(st.sampled_from(['', '', 'py']))+draw(st.sampled_from(BASE))
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['ph'] = draw(gen.phonons(spec['n'])) if elph else None
    spec['herm'] = [True, False]
    ks = BASE*3+['py'+k for k in BASE]
    # matrix-free from the start, mostly changing the approach
    spec['mfree'] = draw(st.integers(0, 3)) == 0
    spec['byclass'] = draw(st.integers(0, 4)) == 0
    kinds = KINDS+(['itype_ph', 'T_ph'] if elph else [])
    if spec['mfree']:
        kinds = kinds+['k', 'k', 'solve', 'solve', 'solve']
    spec['ops'] = draw(ops(kinds, ks))
    return spec


@st.composite
def second(draw):
    """All approaches, equal temperatures and real amplitudes (the domain of the RTD approach)."""
    spec = draw(gen.system(nmin=1, nmax=2, lmax=2, itypes=(1, 2, 3), real=True, D=30.0, tmin=0.5, equal_T=True))
    ks = ['2vN', 'RTD']*3+BASE+['py2vN', 'pyRTD']+['pyPauli', 'py1vN']
    spec['k'] = draw(st.sampled_from(ks))
    spec['indexing'] = 'charge'
    spec['real'] = True
    spec['ph'] = None
    spec['herm'] = [True, False]
    spec['ops'] = draw(ops([k for k in KINDS if k not in ('T', 'dband')]+['off', 'kpnt', 'rmcoh', 'k'], ks, 7))
    return spec


class Model(object):
    """The settings in effect."""

    def __init__(self, spec):
        self.k = spec['k']
        self.itype = 1 if base(self.k) == 'RTD' else spec['itype']
        self.itype_ph = 2
        self.symq = True
        self.norm = 0
        self.solm = None
        self.mfree = bool(spec.get('mfree'))
        self.phi0 = None
        self.off = True
        self.kpnt = 24
        self.m = model_of(spec)

    def build(self, spec, **over):
        kw = dict(symq=self.symq, norm_row=self.norm, solmethod=self.solm, mfreeq=self.mfree, phi0_init=self.phi0,
                  kpnt=self.kpnt, itype=self.itype)
        if spec.get('ph'):
            kw['itype_ph'] = self.itype_ph
        kw.update(over)
        s = fresh(dict(spec, k=self.k), self.m, **kw)
        s.off_diag_corrections = self.off
        return s


def approach_class(k, elph):
    import qmeq.builder.builder_base as b
    if elph:
        import qmeq.builder.builder_elph as b
    return getattr(b, 'Approach'+k[0].capitalize()+k[1:])


def apply_op(s, op, spec, c):
    """Applies the operation to the system and the model.  Returns whether the stationary state can differ."""
    kind = op[0]
    if kind == 'k':
        # the class of an approach can be given as well; it does not touch other settings
        by_class = op[2] and base(op[1]) in BASE
        s.kerntype = approach_class(op[1], spec.get('ph')) if by_class else op[1]
        if op[1] != c.k and c.phi0 is not None:
            # a start vector has the length of the old approach (the default one is up to the package)
            s.phi0_init = c.phi0 = None
        c.k = op[1]
        if spec.get('ph'):
            # compiled and Python approaches take different function classes
            s.bath_func = gen.bath_func(spec['ph']['dos'], spec['ph']['nb'], not c.k.startswith('py'))
        if base(c.k) == 'RTD':
            c.itype = 1
        if base(c.k) in SECOND and c.mfree:
            c.mfree, c.solm = False, None
        return True
    x = op[1]
    if kind == 'symq':
        s.symq = c.symq = bool(x % 2)
    elif kind == 'norm':
        s.norm_row = c.norm = x % s.si.npauli
    elif kind == 'solm':
        if c.mfree:
            v = ['krylov', 'hybr', 'lm'][x % 3]
        else:
            v = [None, 'solve', 'lsqr'][x % 3]
            if not c.symq and v == 'solve':
                v = 'lsqr'
        s.solmethod = c.solm = v
    elif kind == 'mfree':
        if base(c.k) in SECOND and x % 2:
            return False
        s.mfreeq = c.mfree = bool(x % 2)
        c.solm = None
    elif kind == 'itype':
        s.itype = v = [1, 2, 3, 0][x % 3]
        c.itype = 1 if base(c.k) == 'RTD' else v
    elif kind == 'itype_ph':
        # 0: principal values
        s.itype_ph = c.itype_ph = 0 if x % 4 == 0 else 2
    elif kind == 'phi0':
        if c.mfree and s.phi0 is not None and len(s.phi0) and x % 3:
            v = np.zeros(len(s.phi0))
            v[x % s.si.npauli] = 1.0
            s.phi0_init = c.phi0 = v
        elif c.phi0 is not None:
            s.phi0_init = c.phi0 = None
    elif kind == 'rmcoh':
        # not supported by the second-order approaches, which need all elements: nothing happens
        if base(c.k) in SECOND:
            s.remove_coherences(x/8.0)
        return False
    elif kind == 'off':
        s.off_diag_corrections = c.off = bool(x % 2)
    elif kind == 'kpnt':
        s.kpnt = c.kpnt = 24+8*(x % 3)
    elif kind == 'mu':
        l = x % spec['nl']
        s.change(mulst={l: (x-32)/16})
        c.m['mulst'][l] = (x-32)/16
    elif kind == 'T':
        l = x % spec['nl']
        s.change(tlst={l: 0.25+x/32})
        c.m['tlst'][l] = 0.25+x/32
    elif kind == 'T_ph':
        l = x % spec['ph']['nb']
        s.change(tlst_ph={l: 0.25+x/32})
        c.m['tlst_ph'][l] = 0.25+x/32
    elif kind == 'dband':
        s.dband = 20.0+x
        c.m['dlst'][:] = [-20.0-x, 20.0+x]
    return True


def solve(s, k, how=0, ctx=None):
    """how: parts of the solution that need not be repeated."""
    kw = {}
    if how == 1:
        kw = dict(qdq=False)
    elif how == 2:
        kw = dict(rotateq=False)
    elif how == 3:
        kw = dict(qdq=False, rotateq=False)
    if base(k) == '2vN':
        kw['niter'] = NITER
    if base(k) == 'RTD':
        s.appr.printed_warning_ImGamma = True
    s.funcp.suppress_err = True
    try:
        s.solve(**kw)
    except np.linalg.LinAlgError:
        if base(k) == '2vN':
            ctx.skip('an uncoupled state in resonance with a grid point (singular)')
        raise


def compare(ctx, u, s, spec, c, what):
    """The reconfigured system s against the fresh one u (and a fresh one solved directly)."""
    ctx.require(s.kerntype == c.k and s.itype == c.itype and s.mfreeq == c.mfree and s.symq == c.symq and
                s.norm_row == c.norm, what+'settings reported: %s' % ([s.kerntype, s.itype, s.mfreeq, s.symq, s.norm_row],))
    ctx.close(s.Ea, u.Ea, 1e-12*(1+np.abs(u.Ea).max()), what+'energies')
    ctx.require(len(s.phi0) == len(u.phi0), what+'number of density-matrix elements')
    d = u
    tol = 0.0
    k = base(c.k)
    if c.mfree:
        d = c.build(spec, mfreeq=False, solmethod=None, symq=True, phi0_init=None)
        d.make_kern_copy = True
        solve(d, c.k, ctx=ctx)
    lo, hi = common.conditioning(d)
    if c.mfree:
        tol = 5e-5/lo if lo > 1e-3 else np.inf
    if k == '2vN':
        cond = hi/lo if lo > 0 else np.inf
        cond += np.linalg.cond(d.appr.kern1k_inv).max()
        tol = max(tol, 1e-12*cond)
    tol += common.rel_error(d, c.itype, quad=0.0)*4+1e-13
    if k in ('Pauli', 'RTD') or spec.get('ph'):
        E, N = np.array(d.Ea), common.charges_of(d)
        gap = np.abs(E[:, None]-E[None, :])[(N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)].min(initial=1)
        tol = np.inf if gap < 1e-4 else tol*(1+0.1/gap)
    if not tol < 1e-2 or not d.success:
        ctx.label('observables not compared')
        return
    if c.mfree and not u.success:
        ctx.label('matrix-free solution fails')
        return
    ctx.require(bool(s.success), what+'failure only after the reconfiguration')
    size = max(1, np.abs(d.phi0).max())
    G, E = scales(d)
    G += 1e-3
    ctx.close(s.phi0, d.phi0, tol*size, what+'density matrix')
    if c.m is None:
        return
    ctx.close(s.current, d.current, tol*G*4*size, what+'currents')
    etol = tol*G*4*E*4*size+1e-13*G*size*np.abs(d.dlst).max()
    if np.isfinite(d.energy_current).all():
        ctx.close(s.energy_current, d.energy_current, etol, what+'energy currents')
        ctx.close(s.heat_current, d.heat_current, etol*2, what+'heat currents')
    ctx.require((s.phi1 is None) == (u.phi1 is None), what+'current amplitudes missing')
    if s.phi1 is not None:
        ctx.close(s.phi1, d.phi1, tol*size*4*(1+np.sqrt(G)), what+'current amplitudes')
    for b in range(len(d.Ea)):
        ctx.close(s.get_phi0(b, b), d.get_phi0(b, b), tol*size, what+'get_phi0')


def snapshot(s):
    out = [('energies', s.Ea), ('amplitudes', s.Tba), ('density matrix', s.phi0), ('currents', s.current),
           ('energy currents', s.energy_current), ('heat currents', s.heat_current)]
    return [(a, np.array(b)) for a, b in out]


def check(ctx, spec):
    c = Model(spec)
    # on construction, too, the approach can be given by its class
    by_class = spec.get('byclass') and base(c.k) in BASE
    s = c.build(spec, **(dict(kerntype=approach_class(c.k, spec.get('ph'))) if by_class else {}))
    solved = changed = diagonalised = 0
    dirty = True
    for i, op in enumerate(list(spec['ops'])+[['solve', 0]]):
        kind = op[0]
        what = 'after %s: ' % (spec['ops'][:i+1],)
        if kind == 'solve':
            how = (op+[0])[1] if diagonalised else 0
            solve(s, c.k, how, ctx)
            u = c.build(spec)
            u.make_kern_copy = True
            solve(u, c.k, 0, ctx)
            compare(ctx, u, s, spec, c, what)
            if (op+[0])[1] == 4:
                # once more
                old = snapshot(s)
                solve(s, c.k, 0, ctx)
                again(ctx, s, old, c, what)
            solved += 1
            diagonalised = True
            dirty = False
        elif kind == 'partial':
            if dirty or not diagonalised:
                continue
            old = snapshot(s)
            if op[1] == 0:
                # the master equation is not solved: nothing but the dot is touched
                if base(c.k) == '2vN':
                    s.solve(masterq=False, restartq=False)
                else:
                    s.solve(masterq=False)
            elif op[1] == 1 and base(c.k) not in ('2vN',):
                s.solve(currentq=False)
                old = old[:3]
                dirty = True
            elif op[1] == 2 and base(c.k) == '2vN':
                s.solve(restartq=False, niter=0)
            else:
                solve(s, c.k, op[1] % 4, ctx)
            again(ctx, s, old, c, what)
        else:
            apply_op(s, op, spec, c)
            changed += solved > 0
            dirty = True
        ctx.label(kind)
    ctx.label(c.k+(' matrix-free' if c.mfree else ''))
    ctx.nontrivial(changed and (np.abs(s.current).max() > 1e-9 or len(s.phi0) > s.si.npauli))


def again(ctx, s, old, c, what):
    """Nothing changed, so the numbers are the same."""
    size = 1+max(np.abs(b[np.isfinite(b)]).max(initial=0) for _, b in old)
    for (name, a), (_, b) in zip(snapshot(s), old):
        ctx.close(a, b, 1e-9*size, what+'repeated: '+name)


SUBCHECKS = [
    Sub('switching', switching, check, 1600, 40000,
        'up to 9 operations: approach, all-equations mode, normalisation row, solution method, matrix-free mode, start '
        'vector, integral type, lead parameters, full and partial solves', shards=6, tshards=16),
    Sub('phonon', lambda: switching(elph=True), check, 500, 12000, 'the same with phonon baths', shards=4, tshards=16),
    Sub('second', second, check, 500, 8000, 'histories through all approaches including 2vN and RTD', shards=6, tshards=16),
]
