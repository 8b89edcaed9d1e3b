"""Removing states or coherences restricts the theory exactly to what is kept."""

import copy

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub
from . import c04
from .c08 import scales
from .c12 import fresh, model_of

RULE = ('non-trivial: states or coherences were really removed, at least two states are left and the solution has a '
        'current or a coherence')
ASSUMPTIONS = ['cut-offs lie between distinct levels (distance above 1e-4)',
               'coherences are removed after states; removing states again starts from all coherences']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']


def cuts_of(E):
    E = np.sort(np.asarray(E))
    return [0.5*(a+b)-E[0] for a, b in zip(E[:-1], E[1:]) if b-a > 1e-4]


def coherence_cuts(E):
    d = np.unique(np.abs(E[:, None]-E[None, :]))
    return [1e-9]+[0.5*(a+b) for a, b in zip(d[:-1], d[1:]) if b-a > 1e-4]


class Kept(object):
    """What takes part, decided from the energies at the time of the call."""

    def __init__(self, s):
        self.reset(s)

    def reset(self, s):
        self.n = s.si.nmany
        self.states = list(range(self.n))
        self.dE = None          # coherences kept up to this
        self.mask = None

    def remove_states(self, s, dE):
        E = np.array(s.Ea)
        self.states = [b for b in range(self.n) if E[b] < E.min()+dE]
        self.mask = None

    def remove_coherences(self, s, dE):
        E = np.array(s.Ea)
        m = np.abs(E[:, None]-E[None, :]) <= dE
        m |= np.eye(self.n, dtype=bool)
        self.mask = m if self.mask is None else (m & self.mask)

    def full_mask(self, s):
        m = common.kept_mask(s)
        if self.mask is not None:
            m = m & self.mask
        k = np.zeros(self.n, dtype=bool)
        k[self.states] = True
        return m & k[:, None] & k[None, :]

    def removed(self, s):
        return len(self.states) < self.n or (self.mask is not None and not self.mask[common.kept_mask(s)].all())


@st.composite
def ops(draw, elph=False, second=False, maxlen=6):
    kinds = ['rmstates', 'rmstates', 'rmcoh', 'rmcoh', 'all', 'solve', 'solve', 'hs', 'mu', 'tl', 'k', 'nothing', 'fock', 'symq', 'norm']
    if second:
        kinds = ['rmstates', 'rmstates', 'all', 'solve', 'hs', 'mu', 'k', 'nothing', 'fock', 'symq']
    out = [[draw(st.sampled_from(['rmstates', 'solve'] + ([] if second else ['rmcoh']))), draw(st.integers(1, 63))]]
    for _ in range(draw(st.integers(1, maxlen))):
        out.append([draw(st.sampled_from(kinds)), draw(st.integers(1, 63))])
    return out


def do(s, op, keep, spec, ks, m=None):
    """Applies the operation to system and model; returns False when it does not apply.  m: parameters (c12)."""
    kind, x = op
    if kind == 'rmstates':
        cuts = cuts_of(s.Ea)
        if not cuts or len(s.Ea) != s.si.nmany:
            return False
        if keep.mask is not None:
            s.use_all_states()
            keep.reset(s)
        dE = cuts[x % len(cuts)]
        s.remove_states(dE)
        keep.remove_states(s, dE)
    elif kind == 'rmcoh':
        if common.base_kerntype(s.kerntype) in ('2vN', 'RTD') or len(s.Ea) != s.si.nmany:
            return False
        E = np.array(s.Ea)
        cuts = coherence_cuts(E)
        dE = cuts[x % len(cuts)]
        s.remove_coherences(dE)
        keep.remove_coherences(s, dE)
    elif kind == 'nothing':
        big = [1e3, 1e9, np.inf][x % 3]
        if x % 2 and common.base_kerntype(s.kerntype) not in ('2vN', 'RTD'):
            s.remove_coherences(big)
        elif keep.mask is None:
            # all states again
            s.remove_states(big)
            keep.remove_states(s, big)
    elif kind == 'all':
        s.use_all_states()
        keep.reset(s)
    elif kind == 'hs':
        k = (x % spec['n'], x % spec['n'])
        s.change(hsingle={k: (x-31)/16})
        if m is not None:
            m['hsingle'][k] = (x-31)/16
        s.solve(masterq=False, restartq=False)
    elif kind == 'mu':
        s.change(mulst={x % spec['nl']: (x-32)/16})
        if m is not None:
            m['mulst'][x % spec['nl']] = (x-32)/16
    elif kind == 'tl':
        k = [(l, i) for l, i, _, _ in spec['tl']][x % len(spec['tl'])]
        v = (x-31)/80+(0.1j*(x % 3) if not spec.get('real') else 0)
        s.change(tleads={k: v})
        if m is not None:
            m['tleads'][k] = v
    elif kind == 'k':
        new = ks[x % len(ks)]
        if spec.get('ph'):
            s.bath_func = gen.bath_func(spec['ph']['dos'], spec['ph']['nb'], not new.startswith('py'))
        if keep.mask is not None and (common.base_kerntype(new) in ('2vN', 'RTD')):
            return False
        s.kerntype = new
    elif kind == 'fock':
        gone = spec.setdefault('gone', [])
        if spec['indexing'] == 'ssq' or len(gone) >= 2**spec['n']-2:
            return False
        left = [i for i in range(2**spec['n']) if i not in gone]
        i = left[x % len(left)]
        again = gone[:1] if x % 3 == 0 else []
        s.remove_fock_states([i]+again)
        gone.append(i)
        keep.reset(s)
        s.solve(masterq=False, restartq=False)
    elif kind == 'symq':
        s.symq = bool(x % 2)
    elif kind == 'norm':
        s.norm_row = x
    else:
        return kind == 'solve'
    return True


def valid_norm(s):
    if not 0 <= s.norm_row < s.si.npauli:
        s.norm_row = s.norm_row % s.si.npauli if s.si.npauli else 0


@st.composite
def history(draw):
    spec = draw(gen.system(nmin=draw(st.sampled_from([2, 2, 2, 1])), nmax=3, lmin=2, lmax=3, itypes=(1, 2, 2, 3)))
    spec['real'] = False
    spec['k'] = draw(st.sampled_from(['', '', 'py']))+draw(st.sampled_from(BASE))
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['ops'] = draw(ops())
    return spec


def check_history(ctx, spec, build=gen.build):
    spec = copy.deepcopy(spec)
    s = build(spec, kerntype=spec['k'], indexing=spec['indexing'])
    s.funcp.suppress_err = True
    s.solve(masterq=False)
    keep = Kept(s)
    check_numbers(ctx, s, keep, 'fresh: ')
    ks = ['1vN', 'Redfield', 'Lindblad', 'Pauli', 'py1vN', 'pyLindblad', 'pyRedfield', 'pyPauli']
    for i, op in enumerate(spec['ops']+[['solve', 0]]):
        if not do(s, op, keep, spec, ks):
            continue
        ctx.label(op[0])
        what = 'after %s: ' % (spec['ops'][:i+1],)
        check_numbers(ctx, s, keep, what)
        if op[0] != 'solve':
            continue
        valid_norm(s)
        if not c04.away_from_edges(s):
            ctx.skip('level at a band edge')
        s.solve()
        check_numbers(ctx, s, keep, what)
        mask = keep.full_mask(s)
        if not s.success:
            # a failure is right only for an undetermined stationary state
            sub = np.ix_(keep.states, keep.states)
            N = common.charges_of(s)
            dot = ref.Dot(np.array(s.Ea)[keep.states], N[keep.states], np.array(s.Tba)[:, sub[0], sub[1]], s.mulst, s.tlst, s.dlst)
            fo = ref.FirstOrder(dot, common.base_kerntype(s.kerntype), s.itype, mask[sub])
            if ref.well_posed(fo):
                ctx.fail(what+'a well-posed system is reported as a failure')
            ctx.label('failure reported')
            continue
        c = copy_ctx(ctx)
        c04.check_first_order(c, s, s.itype, mask, what, keep=keep.states)
        if c.nontriv and keep.removed(s) and len(keep.states) > 1:
            ctx.nontrivial()
            ctx.label('coherences removed' if keep.mask is not None and keep.removed(s) else 'states removed')
            ctx.label(s.kerntype)


def copy_ctx(ctx):
    from ..core import Ctx
    return Ctx()


def check_numbers(ctx, s, keep, what):
    """The advertised counts are the numbers of kept elements."""
    si = s.si
    ctx.require(si.nmany == keep.n, what+'%d states instead of %d' % (si.nmany, keep.n))
    got = sorted(b for c in range(si.ncharge) for b in si.statesdm[c])
    ctx.require(got == keep.states, what+'kept states %s instead of %s' % (got, keep.states))
    if common.base_kerntype(s.kerntype) in ('2vN', 'RTD') or si.indexing == 'ssq':
        return
    mask = keep.full_mask(s)
    npauli, pairs = int(mask.diagonal().sum()), int((mask.sum()-mask.diagonal().sum())//2)
    ctx.require((si.npauli, si.ndm0, si.ndm0r) == (npauli, npauli+pairs, npauli+2*pairs),
                what+'numbers of elements %s instead of %s' % ((si.npauli, si.ndm0, si.ndm0r), (npauli, npauli+pairs, npauli+2*pairs)))


# ---- spin indexings

@st.composite
def spin(draw):
    sp = draw(c04.spinful())
    if sp['itype'] == 0:
        sp['itype'] = 2
    sp['nl'], sp['n'] = 2*sp['nlh'], 2*sp['h']
    kinds = ['rmstates', 'rmcoh', 'all', 'solve', 'k', 'nothing', 'norm', 'symq']
    if not sp['sym']:
        kinds += ['fock', 'mu']
    sp['ops'] = [[draw(st.sampled_from(['rmstates', 'rmcoh', 'solve'])), draw(st.integers(1, 63))]]
    sp['ops'] += [[draw(st.sampled_from(kinds)), draw(st.integers(1, 63))] for _ in range(draw(st.integers(1, 5)))]
    return sp


def check_spin(ctx, sp):
    def build(spec, **kw):
        return c04.spin_build(spec, **kw)
    sp = dict(sp, k=('py' if sp['py'] else '')+sp['k'])
    check_history(ctx, sp, build)
    ctx.label(sp['indexing'])


# ---- projected Hamiltonian

@st.composite
def fock(draw):
    spec = draw(gen.system(nmin=2, nmax=3, lmin=2, lmax=3, itypes=(1, 2, 3)))
    spec['k'] = draw(st.sampled_from(['', '', 'py']))+draw(st.sampled_from(BASE))
    n = 2**spec['n']
    spec['gone'] = draw(st.lists(st.integers(0, n-1), min_size=1, max_size=draw(st.sampled_from([2, n//2, n-1])), unique=True))
    spec['parts'] = draw(st.integers(1, 3))
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    if draw(st.integers(0, 3)) == 0:
        # spin is conserved: up levels come first
        h = draw(st.integers(1, 2))
        m = spec['n'] = 2*h
        n = 2**m
        spec['indexing'] = 'sz'
        spec['hs'] = [e for e in draw(gen.hsingle(m)) if e[0]//h == e[1]//h]
        spec['co'] = draw(gen.coulomb(m, exchange=False))
        # the first half of the leads has spin up
        nl = spec['nl'] = draw(st.sampled_from([2, 4]))
        spec['tl'] = [e for e in draw(gen.tunnel(m, nl, pzero=0.0)) if e[1]//h == e[0]//(nl//2)]
        spec['mu'], spec['T'] = (spec['mu']*2)[:nl], (spec['T']*2)[:nl]
        spec['D'] = 50.0
        spec['gone'] = draw(st.lists(st.integers(0, n-1), min_size=1, max_size=n//2, unique=True))
    spec['solved'] = draw(st.booleans())
    spec['later'] = draw(st.booleans())
    spec['ph'] = draw(gen.phonons(spec['n'])) if draw(st.integers(0, 2)) == 0 and spec['indexing'] != 'sz' else None
    return spec


def projected(spec, left):
    """Reference eigenbasis of the projected operators."""
    n = spec['n']
    H = ref.hamiltonian(n, ref.hermitise_hs(gen.hs_dict(spec)), gen.co_dict(spec))[np.ix_(left, left)]
    T = np.array(ref.tunneling(n, spec['nl'], gen.tl_dict(spec)))
    T = T[:, left][:, :, left]
    N = np.array(ref.charges(n))[left]
    nb = spec['ph']['nb'] if spec.get('ph') else 0
    F = np.array(ref.phonon_coupling(n, nb, gen.velph_dict(spec['ph'])))[:, left][:, :, left] if nb else []
    E, V = np.zeros(len(left)), np.zeros((len(left), len(left)), dtype=complex)
    for q in np.unique(N):
        i = np.flatnonzero(N == q)
        e, v = np.linalg.eigh(H[np.ix_(i, i)])
        E[i] = e
        V[np.ix_(i, i)] = v
    T = np.array([V.conj().T @ t @ V for t in T])
    F = [V.conj().T @ f @ V for f in F]
    return E, N, T, H, F


def check_fock(ctx, spec):
    left = [i for i in range(2**spec['n']) if i not in spec['gone']]
    if spec.get('ph'):
        s = gen.build_elph(spec, spec['ph'], spec['k'], indexing=spec['indexing'])
    else:
        s = gen.build(spec, kerntype=spec['k'], indexing=spec['indexing'])
    s.make_kern_copy = True
    s.funcp.suppress_err = True
    if spec['solved']:
        s.solve()
    gone = list(spec['gone'])
    size = -(-len(gone)//spec['parts'])
    for i in range(0, len(gone), size):
        s.remove_fock_states(gone[i:i+size])
    if spec['later']:
        # parameters changed afterwards
        spec = copy.deepcopy(spec)
        e = 0.375
        spec['hs'] = [[i, j, re+(e if i == j == 0 else 0), im] for i, j, re, im in spec['hs']]
        s.add(hsingle={(0, 0): e})
    E, N, T, H, F = projected(spec, left)
    s.solve(masterq=False)
    ctx.require(len(s.Ea) == len(left), '%d energies for %d states' % (len(s.Ea), len(left)))
    Nq = common.charges_of(s)
    for q in range(spec['n']+1):
        ctx.close(np.sort(np.array(s.Ea)[Nq == q]), np.sort(E[N == q]), 1e-11*(1+np.abs(E).max()),
                  'energies with %d electrons of the projected Hamiltonian' % q)
    # tunnelling operators through traces that do not depend on the basis
    for l in range(spec['nl']):
        for k in range(spec['nl']):
            for a, b in ((0.0, 0.0), (0.2, 0.1), (0.05, 0.3)):
                e0 = E.min()
                A, B = np.exp(-a*(np.array(s.Ea)-e0)), np.exp(-b*(np.array(s.Ea)-e0))
                got = np.einsum('i,ij,j,ji', A, s.Tba[l], B, s.Tba[k])
                want = np.einsum('i,ij,j,ji', np.exp(-a*(E-e0)), T[l], np.exp(-b*(E-e0)), T[k])
                ctx.close(got, want, 1e-10*(1+np.abs(want)), 'projected tunnelling operators')
    for b, f in enumerate(F):
        got, e0 = np.array(s.Vbbp[b]), E.min()
        for x, y in ((0.0, 0.0), (0.2, 0.1), (0.05, 0.3)):
            A, B = np.exp(-x*(np.array(s.Ea)-e0)), np.exp(-y*(np.array(s.Ea)-e0))
            A0, B0 = np.exp(-x*(E-e0)), np.exp(-y*(E-e0))
            for what, g, w in [('', np.einsum('i,ii', A, got), np.einsum('i,ii', A0, f)),
                               (' (products)', np.einsum('i,ij,j,ji', A, got, B, got), np.einsum('i,ij,j,ji', A0, f, B0, f)),
                               (' (Hermitian products)', np.einsum('i,ij,j,ij', A, got, B, got.conj()), np.einsum('i,ij,j,ij', A0, f, B0, f.conj())),
                               (' (with tunnelling)', np.einsum('i,ij,j,jk,k,ki', A, got, B, s.Tba[0], A, s.Tba[0]),
                                np.einsum('i,ij,j,jk,k,ki', A0, f, B0, T[0], A0, T[0]))]:
                ctx.close(g, w, 1e-10*(1+np.abs(f).max()**2), 'projected phonon operators'+what)
    if F:
        ctx.label('phonon couplings')
        ctx.nontrivial(len(left) > 1 and max(np.abs(f).max() for f in F) > 0)
        s.solve()
        return
    dot = ref.Dot(E, N, T, s.mulst, s.tlst, s.dlst)
    k = common.base_kerntype(spec['k'])
    fo = ref.FirstOrder(dot, k, spec['itype'])
    s.solve()
    d = np.abs(E[:, None]-E[None, :])[(N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)].min(initial=1)
    if not ref.well_posed(fo) or (k == 'Pauli' and d < 1e-4):
        ctx.label('observables not compared')
        return
    M, els = fo.superop()
    norm = np.array([1.0 if a == b else 0.0 for a, b in els])
    M = np.vstack([M, norm])
    x = np.linalg.lstsq(M, np.append(np.zeros(len(els)), 1.0), rcond=None)[0]
    rho = np.zeros((len(E), len(E)), dtype=complex)
    for v, (a, b) in zip(x, els):
        rho[a, b] = v
    cur, ecur, heat = fo.currents(rho)
    G, En = scales(s)
    lo = np.linalg.svd(M, compute_uv=False)[-1]
    err = common.rel_error(s, spec['itype'], quad=0.0)*20+1e-12*(1+np.abs(M).max()/lo)
    if k == 'Pauli':
        err *= 1+0.1/d
    if not err < 1e-4:
        ctx.label('observables not compared')
        return
    ctx.require(bool(s.success), 'failure for a well-posed system')
    size = max(1, np.abs(rho).max())
    ctx.close(s.current, cur, err*G*4*size+1e-14, 'currents of the projected system')
    ctx.close(s.energy_current, ecur, (err*G*4*size+1e-14)*En*4+1e-12*G*np.abs(s.dlst).max()*size, 'energy currents')
    for q in range(spec['n']+1):
        p = sum(s.get_phi0(b, b).real for b in np.flatnonzero(Nq == q))
        ctx.close(p, rho[N == q, N == q].sum().real, err*4*size, 'population of the sector with %d electrons' % q)
    ctx.label(k, '%d of %d states left' % (len(left), 2**spec['n']))
    ctx.nontrivial(len(left) > 1 and np.abs(cur).max() > 1e-9)


# ---- all approaches against many-body systems restricted to the kept states

@st.composite
def restricted(draw):
    kind = draw(st.sampled_from(['2vN', 'RTD', 'elph', 'elph']))
    if kind == 'elph':
        spec = draw(gen.system(nmin=2, nmax=3, lmax=2, itypes=(1, 2, 3)))
        spec['ph'] = draw(gen.phonons(spec['n']))
        spec['k'] = draw(st.sampled_from(['', '', 'py']))+draw(st.sampled_from(BASE))
    else:
        spec = draw(gen.system(nmin=draw(st.sampled_from([1, 2, 2])), nmax=2, lmax=2, itypes=(1,), real=True, D=30.0 if kind == '2vN' else 100.0,
                               tmin=0.5, equal_T=True))
        spec['ph'] = None
        spec['k'] = ('py' if draw(st.integers(0, 3)) == 0 else '')+kind
    spec['herm'] = [True, False]
    spec['kind'] = kind
    spec['indexing'] = 'charge'
    spec['real'] = True
    spec['ops'] = draw(ops(second=True, maxlen=5))
    spec['off'] = draw(st.booleans())
    return spec


def solve(s, spec, ctx):
    k = common.base_kerntype(s.kerntype)
    s.funcp.suppress_err = True
    kw = dict(qdq=False, rotateq=False)
    if k == '2vN':
        kw['niter'] = 2
    if k == 'RTD':
        s.off_diag_corrections = spec['off']
        s.appr.printed_warning_ImGamma = True
    try:
        s.solve(**kw)
    except np.linalg.LinAlgError:
        if k == '2vN':
            ctx.skip('an uncoupled state in resonance with a grid point (singular)')
        raise


def many_body(s, states, spec):
    """A system built from the many-body data of the given states."""
    import qmeq
    Ea, Na = np.array(s.Ea)[states], common.charges_of(s)[states]
    Tba = np.array(s.Tba)[:, states][:, :, states]
    nl = spec['nl']
    kw = dict(Ea=Ea, Na=Na, Tba=Tba, mulst={l: s.mulst[l] for l in range(nl)}, tlst={l: s.tlst[l] for l in range(nl)},
              dband={l: tuple(s.dlst[l]) for l in range(nl)}, kerntype=s.kerntype, itype=s.itype)
    k = common.base_kerntype(s.kerntype)
    if k == '2vN':
        kw['kpnt'] = 24
    if spec.get('ph'):
        ph = spec['ph']
        nb = ph['nb']
        kw.update(Vbbp=np.array(s.Vbbp)[:, states][:, :, states], tlst_ph={i: s.tlst_ph[i] for i in range(nb)},
                  dband_ph={i: tuple(s.dlst_ph[i]) for i in range(nb)},
                  bath_func=gen.bath_func(ph['dos'], nb, not s.kerntype.startswith('py')))
        u = qmeq.Builder.many_body_elph(**kw)
        u.itype_ph = s.itype_ph
        return u
    u = qmeq.Builder.many_body(**kw)
    if k == 'RTD':
        u.nsingle = s.nsingle
        u.tleads_array = np.array(s.tleads_array)
    return u


def check_restricted(ctx, spec):
    spec = copy.deepcopy(spec)
    m = model_of(spec)
    s = fresh(spec, m)
    s.solve(masterq=False)
    keep = Kept(s)
    k0 = spec['kind']
    ks = ['2vN', 'RTD', '2vN', 'RTD', 'py2vN', 'pyRTD', '1vN', 'Pauli'] if k0 != 'elph' else BASE*2+['py'+k for k in BASE]
    if k0 != 'elph':
        s.kpnt = 24
    solved = 0
    for i, op in enumerate(spec['ops']+[['solve', 0]]):
        if not do(s, op, keep, spec, ks):
            continue
        ctx.label(op[0])
        what = 'after %s: ' % (spec['ops'][:i+1],)
        if op[0] != 'solve':
            continue
        valid_norm(s)
        check_numbers(ctx, s, keep, what)
        solve(s, spec, ctx)
        u = many_body(s, keep.states, spec)
        u.make_kern_copy = True
        solve(u, spec, ctx)
        same_results(ctx, s, u, keep, spec, what)
        solved += 1
        ctx.label(s.kerntype)
        ctx.nontrivial(keep.removed(s) and len(keep.states) > 1 and np.abs(u.phi0).max() > 1e-9)


def same_results(ctx, s, u, keep, spec, what):
    k = common.base_kerntype(s.kerntype)
    lo, hi = common.conditioning(u)
    tol = common.rel_error(u, s.itype, quad=0.0)*4+1e-13
    if k == '2vN':
        cond = hi/lo if lo > 0 else np.inf
        cond += np.linalg.cond(u.appr.kern1k_inv).max() if u.appr.kern1k_inv.size else 0
        tol = max(tol, 1e-12*cond)
    if k == 'RTD':
        E, N = np.array(u.Ea), common.charges_of(u)
        gap = np.abs(E[:, None]-E[None, :])[(N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)].min(initial=1)
        tol = np.inf if gap < 1e-6 else tol*(1+0.1/gap)
    if not tol < 1e-3 or not u.success:
        ctx.label('observables not compared')
        return
    ctx.require(bool(s.success), what+'failure with removed states')
    size = max(1, np.abs(u.phi0).max())
    N = common.charges_of(s)
    rho, want = common.rho_matrix(s, N), np.zeros((len(N), len(N)), dtype=complex)
    want[np.ix_(keep.states, keep.states)] = common.rho_matrix(u)
    ctx.close(rho, want, tol*size, what+'density matrix')
    G, E = scales(u)
    G += 1e-3
    ctx.close(s.current, u.current, tol*G*4*size, what+'currents')
    nan = np.isnan(u.energy_current)
    ctx.require((np.isnan(s.energy_current) == nan).all(), what+'energy currents defined')
    if not nan.any():
        etol = tol*G*4*E*4*size+1e-13*G*size*np.abs(u.dlst).max()
        ctx.close(s.energy_current, u.energy_current, etol, what+'energy currents')
        ctx.close(s.heat_current, u.heat_current, etol*2, what+'heat currents')


SUBCHECKS = [
    Sub('history', history, check_history, 2000, 50000,
        'removal of states and coherences, restoring, Fock-state removal, parameter and approach changes in any order; '
        'every solve against the dense equations of what is kept', shards=6, tshards=16),
    Sub('spin', spin, check_spin, 700, 14000, 'the same with sz and ssq indexing', shards=4, tshards=16),
    Sub('fock', fock, check_fock, 1000, 20000, 'Fock states removed: spectrum, amplitudes and observables of the '
        'projected operators', shards=4, tshards=16),
    Sub('restricted', restricted, check_restricted, 800, 14000,
        '2vN, RTD and phonon systems with removed states against systems built from the kept many-body data', shards=6,
        tshards=16),
]
