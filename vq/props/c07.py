"""Density matrices are Hermitian, and non-negative where the theory guarantees it."""

import numpy as np
from hypothesis import strategies as st

from .. import common, gen
from ..core import Sub
from .c06 import spec_build

RULE = ('non-trivial: at least two states with population above 1e-9 and an error bound of the linear solve below 1e-3')
ASSUMPTIONS = ['allowed negativity: rounding over the smallest singular value of the solved matrix, measured per case']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']


@st.composite
def extreme(draw, elph=False):
    """Strong coupling, strong bias, low temperature, degenerate levels."""
    kind = draw(st.sampled_from(['plain', 'strong', 'cold', 'degenerate', 'bias']))
    spec = draw(gen.system(nmax=3, itypes=(1, 2, 3) if not elph else (2, 3, 1),
                           t=3.0 if kind == 'strong' else 0.4,
                           mu=15.0 if kind == 'bias' else 3.0,
                           tmin=0.05 if kind == 'cold' else 0.25, tmaxT=0.25 if kind == 'cold' else 2.0,
                           emax=0.25 if kind == 'degenerate' else 4.0))
    if kind == 'degenerate':
        e = spec['hs'][0][2]
        spec['hs'] = [[i, j, e if i == j else x, 0.0 if i == j else y] for i, j, x, y in spec['hs']]
    spec['kind'] = kind
    spec['k'] = draw(st.sampled_from(['Pauli', 'Pauli', 'Lindblad', 'Lindblad', 'Lindblad', 'Redfield', '1vN']))
    spec['py'] = draw(st.integers(0, 3)) == 0
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    if elph:
        spec['ph'] = draw(gen.phonons(spec['n']))
    spec['rm'] = draw(st.sampled_from([None, None, None, 'rmstates']))
    return spec


def check_density(ctx, s, k, what='', quad=0.0, herm=1e-10):
    N = common.charges_of(s)
    n = len(N)
    rho = np.array([[s.get_phi0(b, bp) for bp in range(n)] for b in range(n)], dtype=complex)
    size = max(1, np.abs(rho).max())
    ctx.require(np.isfinite(rho).all(), what+'density matrix is not finite for a successful solve')
    ctx.require(np.abs(rho[N[:, None] != N[None, :]]).max(initial=0) == 0, what+'elements between different charges')
    ctx.close(rho, rho.conj().T, herm*size, what+'density matrix is not Hermitian')
    ctx.require(np.abs(np.diag(rho).imag).max() <= herm*size, what+'populations are not real')
    err = common.rel_error(s, quad=quad)
    if not err < 1e-3:
        ctx.label('ill-conditioned')
        return rho, None
    tol = 10*err+1e-12
    ctx.close(np.trace(rho), 1, 1e-9*size, what+'trace')
    if k in ('Pauli', 'Lindblad'):
        p = np.diag(rho).real
        ctx.require(p.min() >= -tol and p.max() <= 1+tol, lambda: what+'populations outside [0, 1]: %s (allowed %g)' % (p, tol))
    if k == 'Lindblad':
        w = np.linalg.eigvalsh(0.5*(rho+rho.conj().T))
        ctx.require(w.min() >= -tol, lambda: what+'density matrix has the negative eigenvalue %g (allowed %g)' % (w.min(), -tol))
        if np.abs(rho-np.diag(np.diag(rho))).max() > 1e-6:
            ctx.label('coherences')
    return rho, err


def check_extreme(ctx, spec):
    s = spec_build(spec)
    s.make_kern_copy = True
    s.solve(masterq=False)
    if spec['rm']:
        from .c05 import apply_step
        apply_step(s, [spec['rm'], 3], spec)
    s.solve(qdq=False)
    if not s.success:
        ctx.skip('solve reports failure')
    rho, err = check_density(ctx, s, spec['k'])
    ctx.label(spec['k'], spec['kind'], 'py' if spec['py'] else 'compiled', 'removal %s' % spec['rm'])
    ctx.nontrivial(err is not None and (np.diag(rho).real > 1e-9).sum() >= 2)


def spin():
    from . import c04
    return c04.spinful(big=True)


def check_spin(ctx, sp):
    from . import c04
    s = c04.spin_build(sp, kerntype=('py' if sp['py'] else '')+sp['k'], indexing=sp['indexing'])
    s.make_kern_copy = True
    s.solve()
    if not s.success:
        ctx.skip('solve reports failure')
    rho, err = check_density(ctx, s, sp['k'])
    if sp['sym'] and err is not None:
        # spin symmetry: all members of a multiplet are equally populated
        if sp['indexing'] == 'ssq':
            groups = {}
            for b in range(len(s.Ea)):
                q, sz, ssq, alpha = s.si.ind_qn[b]
                groups.setdefault((q, ssq, alpha), []).append(rho[b, b].real)
            for g, v in groups.items():
                ctx.close(np.array(v), np.full(len(v), v[0]), 1e-12, 'populations of the multiplet %s' % (g,))
        if sp['indexing'] == 'sz':
            tot = {}
            for b in range(len(s.Ea)):
                q, sz, alpha = s.si.ind_qn[b]
                tot[q, sz] = tot.get((q, sz), 0)+rho[b, b].real
            for (q, sz), v in tot.items():
                ctx.close(tot[q, -sz], v, 20*err+1e-10, 'populations of opposite spin in charge %d' % q)
    ctx.label(sp['k'], sp['indexing'], 'spin symmetry' if sp['sym'] else 'two spin species')
    ctx.nontrivial(err is not None and (np.diag(rho).real > 1e-9).sum() >= 2)


@st.composite
def second(draw):
    from . import c06
    spec = draw(c06.second())
    spec['k'] = draw(st.sampled_from(['2vN', '2vN', '2vN', 'RTD']))
    if spec['k'] == 'RTD':
        spec['D'], spec['indexing'] = 200.0, 'charge'
    else:
        spec['D'] = min(spec['D'], 40.0)
        spec['py'] = draw(st.integers(0, 5)) == 0
    return spec


def check_second(ctx, spec):
    s = spec_build(spec, **(dict(kpnt=40) if spec['k'] == '2vN' else {}))
    s.make_kern_copy = True
    if spec['k'] == '2vN':
        s.solve(niter=spec['niter'])
    else:
        s.solve()
    lo, hi = common.conditioning(s)
    if not (s.success and lo > 1e-8*hi):
        ctx.skip('ill-conditioned')
    # the second-order kernels are Hermiticity-preserving only up to rounding of their (iterated) elements
    rho, err = check_density(ctx, s, spec['k'], herm=1e-10+1e-12*hi/lo)
    ctx.label(spec['k'], '%d levels' % spec['n'])
    if np.abs(rho-np.diag(np.diag(rho))).max() > 1e-6:
        ctx.label('coherences')
    ctx.nontrivial((np.diag(rho).real > 1e-9).sum() >= 2)


SUBCHECKS = [
    Sub('extreme', extreme, check_extreme, 4000, 60000,
        'first-order approaches at strong coupling, strong bias, low temperature, degeneracy', shards=6, tshards=16),
    Sub('phonon', lambda: extreme(elph=True), check_extreme, 1500, 20000, 'the same with phonon baths', shards=4,
        tshards=16),
    Sub('spin', spin, check_spin, 1200, 20000, 'spin-conserving dots, multiplets equally populated', shards=4,
        tshards=16),
    Sub('second', second, check_second, 400, 6000, 'Hermiticity and trace of 2vN and RTD solutions', shards=4,
        tshards=16),
]
